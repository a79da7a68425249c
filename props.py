"""The properties, and the manifest that claims them: python props.py rewrites properties.jsonl and MANIFEST.json"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


ST, K, ME = "stream/", "kernel/", "metric/"

# ------------------------------------------------------------------ stream
p("S01", "Number sequences are balanced: thresholding at b yields exactly b ones",
  "For every threshold b from 0 to 2^width, exactly b of the 2^width numbers of a generated Sobol, counter ('race'), reversed counter or 'sys' sequence lie below b; an LFSR sequence visits every non-zero state, one of them twice. "
  "The counter sequence puts the ones first and the reversed one puts them last; a Sobol sequence is stratified (every aligned block of 2^k draws holds one number of each dyadic interval), the same on every construction, and different for different dimension indices. "
  "Names are case-insensitive, 'RC' means Sobol and 'TC' the counter, and the sequence has length 2^width and the requested dtype.",
  ["inputs", "configurations"], "all thresholds b (symbolic); widths 1-8 (thorough 1-10), all generator kinds, many dimension indices, several dtypes",
  "tests draw one sequence of one width and print it; balance is about every threshold and every block",
  [ST + "gen.py"], [("RNG", ST + "gen.py:RNG"), ("get_lfsr_seq", ST + "gen.py"), ("get_sysrand_seq", ST + "gen.py")], observe=["RNG(...)()"])
p("S02", "Binary conversion rounds a real source to the nearest representable integer",
  "A source value x becomes the integer nearest to x*2^width in unipolar and to (x+1)/2*2^width in bipolar mode (ties to even), in the requested dtype, in 0..2^width with the legal extremes reached exactly, elementwise. "
  "The source tensor is left untouched.",
  ["inputs"], "every source on a grid 8 times finer than the step, and every float32 in the legal range; widths 1-10, both modes, several dtypes",
  "tests convert one random vector; rounding, ties and extremes concern every value",
  [ST + "gen.py"], [("BinGen", ST + "gen.py:BinGen")], observe=["BinGen(...)()"])
p("S03", "A bitstream is the comparison with its sequence and decodes to its source",
  "At any cycle number (wrapping at the sequence length) each bit is one exactly if the binary value is greater than the sequence entry of that cycle, per element, for one shared cycle index or one per element. "
  "Hence over any window of 2^width consecutive cycles the stream decodes exactly to the quantised source, within half a step of the real source in either mode.",
  ["inputs", "histories"], "all binary values, all sequences, all cycle numbers up to three periods, sequence widths 0-5 (symbolic); every source over a whole period for widths 1-6 (thorough 8), four sequences, any starting cycle",
  "tests decode one random tensor with a fixed width and print the error; the guarantee is for every value, sequence and phase",
  [ST + "gen.py", ME + "metric.py"], [("BSGen", ST + "gen.py:BSGen.forward"), ("RNG", ST + "gen.py"), ("BinGen", ST + "gen.py")], observe=["BSGen.forward"])
p("S04", "Raw data are clamped at the central quantile and scaled into [-1, 1]",
  "Scaling raw data keeps the shape, the sign and the order of the values, clamps them to the central quantile interval and divides by the larger bound in magnitude, so every result lies in [-1, 1] and, with quantile 1, the largest magnitude becomes exactly one. "
  "The raw tensor is not modified (data whose bounds are both zero are excluded).",
  ["inputs"], "every grid tensor of 1 to 4 elements with entries up to +-6, quantiles 0.25-1",
  "tests scale one random tensor",
  [ST + "gen.py"], [("RawScale", ST + "gen.py:RawScale")], observe=["RawScale.forward"])
p("S05", "Skewed synchronisation conserves ones and passes the second stream through",
  "The second stream is passed unchanged. The first output never holds back more than 2^depth - 1 ones and never emits a one it has not received, elementwise. "
  "A surplus one of the first stream is held while the buffer has room, and a held one is emitted at a lone one of the second stream; otherwise the first bit passes.",
  ["histories"], "every pair of input histories of 9 (thorough 14) symbolic cycles, also after concrete prefixes; depths 1-4, several dtypes",
  "tests run one stream pair and plot correlation",
  [ST + "shuffle.py"], [("SkewedSync", ST + "shuffle.py:SkewedSync.forward")], state=[("cnt", "held ones", ST + "shuffle.py")], observe=["SkewedSync.forward"])
p("S06", "Bipolar-to-unipolar conversion keeps the encoded value",
  "With each input one counting +1 and each zero -1 against each output one, the running balance (bounded by +-2^(depth-2)) determines the output: a one is emitted exactly when the balance is positive. "
  "So, without saturation, after any prefix the ones emitted equal the signed input sum up to the bounded remainder, elementwise.",
  ["histories"], "every input history of 10 (thorough 16) symbolic cycles, also after concrete prefixes long enough to saturate; depths 2-5, several dtypes",
  "tests run one random stream and plot the error",
  [ST + "shuffle.py"], [("Bi2Uni", ST + "shuffle.py:Bi2Uni.forward")], state=[("acc", "balance", ST + "shuffle.py")], observe=["Bi2Uni.forward"])
p("S07", "Unipolar-to-bipolar conversion keeps the encoded value",
  "After any number of cycles the ones emitted equal half of (ones received + cycles), rounded down, elementwise, so that the bipolar output value equals the unipolar input value. "
  "The running remainder is bounded by +-2^(depth-2).",
  ["histories"], "every input history of 12 (thorough 20) symbolic cycles, also after concrete prefixes; depths 3-6, several dtypes",
  "tests run one random stream and plot the error",
  [ST + "shuffle.py"], [("Uni2Bi", ST + "shuffle.py:Uni2Bi.forward")], state=[("acc", "remainder", ST + "shuffle.py")], observe=["Uni2Bi.forward"])

# ------------------------------------------------------------------ kernels
p("K01", "Streaming addition conserves its input and scales the sum",
  "Each cycle adds the input bits along the chosen dimension, less the bipolar offset (entry - scale)/2, to an accumulator bounded by +-2^(depth-2), and emits a one, subtracting the scale, exactly when the accumulator reaches the scale. "
  "So, without saturation, input sum - scale*ones out is the accumulator content after every prefix; scale defaults to the number of entries, the entry count to the size of the dimension, and both may be given at construction or at call time.",
  ["histories", "configurations"], "every input history of up to 5-8 symbolic cycles over 1-7 entries (200-300 with 6 symbolic lanes), also after concrete prefixes that saturate; both modes, ways to give scale and entry, dims, depths, dtypes",
  "tests run one random stream per configuration and plot the error",
  [K + "add.py"], [("FSUAdd", K + "add.py:FSUAdd.forward")], state=[("accumulator", "unemitted part of the sum", K + "add.py")], observe=["FSUAdd.forward"])
p("K02", "Multiplication by a static value consumes its sequence once per input one",
  "The output bit at an input one is the multiplier's bit at the index counting earlier input ones; at an input zero it is zero (unipolar) or the inverted multiplier bit at the index counting earlier zeros (bipolar). "
  "So a constant-one stream over one period returns exactly the multiplier value, whatever the sequence, and a constant-zero stream zero (its negation in bipolar mode).",
  ["inputs", "histories"], "every multiplier value on the grid and every input history of 5-8 symbolic cycles, also after prefixes longer than the period; widths 1-5 (thorough 8), both modes, several sequences",
  "tests run one random input per mode and plot the error",
  [K + "mul.py"], [("FSUMul", K + "mul.py:FSUMul.FSUMul_forward"), ("MUL static", K + "mul.py")], state=[("rng_idx", "position in the sequence, per element", K + "mul.py")], observe=["FSUMul.forward"])
p("K03", "In-stream multiplication regenerates the second stream conditionally",
  "The output bit at an input one compares the number of ones among the last 2^width bits of the second stream (the register starts alternating) with the sequence entry indexed by the count of earlier input ones; "
  "an input zero yields zero in unipolar mode, and in bipolar mode the inverted comparison at the index counting earlier input zeros. Elements are independent.",
  ["histories"], "every pair of input histories of 4-7 symbolic cycles, also after prefixes of up to three periods (w=8: 300 cycles); both modes, several sequences",
  "tests run one random pair per mode and plot the error",
  [K + "mul.py", K + "shiftreg.py"], [("FSUMul", K + "mul.py:FSUMul.FSUMul_forward"), ("ShiftReg", K + "shiftreg.py")], state=[("sr", "last bits of the second stream", K + "mul.py")], observe=["FSUMul.forward"])
p("K04", "A shift register delivers every accepted bit exactly `entry` shifts later",
  "Each accepted bit leaves the register after exactly `entry` accepted shifts, in order; where the mask is zero the element keeps its content. "
  "The reported count equals the ones held before the shift, taps read the content before the shift, the initial content alternates zero and one, and inputs are not modified.",
  ["histories"], "every input and mask history of 4-9 symbolic cycles, also after prefixes; entries 1-8, taps, shapes, dtypes",
  "tests shift one short sequence and print it",
  [K + "shiftreg.py"], [("ShiftReg", K + "shiftreg.py:ShiftReg.forward")], state=[("sr", "held bits", K + "shiftreg.py")], observe=["ShiftReg.forward"])
p("K05", "The JK flip-flop holds, resets, sets and toggles",
  "Starting from zero, each element's state is kept for J=K=0, becomes 1 for J=1,K=0 and 0 for J=0,K=1, and toggles for J=K=1. The output is the new state in the declared dtype, elements being independent.",
  ["histories"], "every J/K history of 5-16 symbolic cycles, also after prefixes; several shapes and dtypes",
  "tests run one sequence",
  [K + "jkff.py"], [("JKFF", K + "jkff.py:JKFF.forward")], state=[("jkff", "stored bit", K + "jkff.py")], observe=["JKFF.forward"])
p("K06", "Sign and magnitude split follows the history of the bipolar stream",
  "The sign bit is one exactly when the saturating up/down count (starting at 2^(depth-1), within 0..2^depth-1) of the bits so far, the current one included, is below its start. "
  "The magnitude bit is the input bit, inverted when the sign bit is one. Without saturation the sign is that of the bipolar sum of the history.",
  ["histories"], "every input history of 5-16 symbolic cycles, also after prefixes that saturate; depths 2-6, dtypes",
  "tests run one stream and plot",
  [K + "signabs.py"], [("FSUSignAbs", K + "signabs.py:FSUSignAbs.forward")], observe=["FSUSignAbs.forward"])
p("K07", "Streaming ReLU replaces the input by ones while its history is negative",
  "The output bit is one while the saturating up/down count of previous outputs (starting at 2^(depth-1), within 0..2^depth-1) is below its start, and the input bit otherwise. "
  "So outputs never drift below bipolar zero by more than one bit, and negative streams become zero. Outputs have the declared stream dtype.",
  ["histories"], "every input history of 6-18 symbolic cycles, also after prefixes that saturate; depths 1-5, dtypes",
  "tests run one stream and plot",
  [K + "relu.py"], [("FSUReLU", K + "relu.py:FSUReLU.forward")], state=[("acc", "saturating count", K + "relu.py")], observe=["FSUReLU.forward"])
p("K08", "Hard activations compute their piecewise linear functions",
  "The streaming hard sigmoid emits floor((ones received + cycles)/2) ones after any prefix. "
  "The binary ones are exact: hardtanh clamps to [-1, 1], ReLU clamps to [0, scale], hard sigmoid is relu6(scale*x+3)/6 (scale 3 unless given), and the streaming hardtanh is the identity; inputs are not modified.",
  ["inputs", "histories"], "every input history of 4-10 symbolic cycles, also after prefixes; every grid input in [-5, 5], several scales and dtypes",
  "tests evaluate one grid and plot it",
  [K + "sigmoid.py", K + "tanh.py", K + "relu.py"], [("FSUHardsigmoid", K + "sigmoid.py"), ("HUBHardtanh", K + "tanh.py"), ("HUBReLU", K + "relu.py")], observe=["forward"])
p("K09", "Division passes the dividend at divisor ones and replays its history elsewhere",
  "Where the divisor bit is one the quotient bit is the dividend bit, which also enters that element's history register; where it is zero the quotient is the register entry picked by this cycle's sequence number, and the register is kept. "
  "The sequence advances once per cycle and the register starts alternating.",
  ["histories"], "every dividend/divisor history of 3-10 symbolic cycles, also after prefixes; registers of 2-8 entries, several sequences and dtypes",
  "tests run one random pair and plot",
  [K + "div.py"], [("CORDIV_kernel", K + "div.py:CORDIV_kernel.forward"), ("ShiftReg", K + "shiftreg.py")], observe=["CORDIV_kernel.forward"])
p("K10", "Streaming division divides synchronised magnitudes and restores the sign",
  "Unipolar division synchronises the dividend to the divisor and divides. Bipolar division splits both operands into sign and magnitude, converts the magnitudes to unipolar, divides, converts back and inverts the bit when the signs differ. "
  "Outputs are bits in the declared dtype and elements are independent.",
  ["histories"], "every dividend/divisor history of 4-9 symbolic cycles, also after prefixes of 12-40; both modes, several depths and sequences",
  "tests run one random pair per mode and plot",
  [K + "div.py", ST + "shuffle.py", K + "signabs.py"], [("FSUDiv", K + "div.py:FSUDiv.forward")], observe=["FSUDiv.forward"])
p("K11", "Streaming square root feeds its output back as the variant prescribes",
  "Each output bit is determined by the input bit and a feedback bit computed from earlier outputs only: accumulated addition with the shifted, inverted output gating it (bit-inserting emission), or the input bit forced to one by the feedback (JK trace: toggled by each output one; in-stream division: of the output by its complement). "
  "In bipolar mode the feedback uses the unipolar form of the output.",
  ["histories"], "every input history of 4-13 symbolic cycles, also after prefixes of 14-50; all four variants, both modes, dtypes",
  "tests run one random stream per variant and plot",
  [K + "sqrt.py"], [("FSUSqrt", K + "sqrt.py:FSUSqrt.forward")], observe=["FSUSqrt.forward"])
p("K12", "The streaming linear layer accumulates weight-gated input bits exactly",
  "Every cycle, each output's count is the number of ones among the weight bits (regenerated per input one, and in bipolar mode inverted per input zero) plus the bias bit; temporal sequences advance every cycle instead. "
  "The output stream is the count accumulated against the scale (number of inputs plus bias unless given), and each batch entry depends on its own inputs only.",
  ["inputs", "histories"], "every weight and bias on the grid and every input history of 2-7 symbolic cycles for small layers; longer prefixes (300 cycles, 70 inputs) with concrete weights; both modes, sequences, overrides",
  "tests run one random layer per configuration and print the error",
  [K + "linear.py", K + "add.py"], [("FSULinear", K + "linear.py:FSULinear"), ("FSULinearPC", K + "linear.py:FSULinearPC")], observe=["FSULinear.forward", "FSULinearPC.forward"])
p("K13", "The streaming convolution counts and accumulates each window exactly",
  "For any kernel size, stride, padding and dilation (per axis), each output position's count and stream are those of a streaming linear layer on its window. "
  "Padding bits are zero in unipolar mode and alternate 0, 1, 0, 1 (bipolar zero) in bipolar mode; the output shape is that of an ordinary convolution.",
  ["inputs", "histories", "configurations"], "ten geometries, both modes, several sequences; weights on the grid and input histories of 1-4 symbolic cycles on small images",
  "tests run one geometry with random data",
  [K + "conv.py"], [("FSUConv2d", K + "conv.py:FSUConv2d"), ("FSUConv2dPC", K + "conv.py:FSUConv2dPC")], observe=["FSUConv2d.forward"])
p("K14", "The streaming gated cell composes its kernels; the hybrid cell averages it",
  "Every output bit of the streaming cell is: forget gate = hard sigmoid of the scaled-by-one streaming linear layer on (hidden, input); new gate = layer on (gated hidden, input); output = new - forget*new + forget*hidden, all in bipolar streams. "
  "The hybrid cell returns the value decoded from running that cell for one period on streams of its input and hidden state (zero hidden state when none is given).",
  ["inputs", "histories"], "hidden and input sizes 1-2, batch 1-2, with and without bias, widths 2-3: histories of 1-5 symbolic cycles also after a period, weights on the grid in the smallest case; hybrid: inputs or hidden state symbolic",
  "tests run one random cell and print the error",
  [K + "rnn.py"], [("FSUMGUCell", K + "rnn.py:FSUMGUCell"), ("HUBMGUCell", K + "rnn.py:HUBMGUCell")], observe=["forward"])
p("K15", "The hard gated cells compute their defining formula",
  "The reference cells return new + forget*(hidden - new) written as new - forget*new + forget*hidden, with forget = hard sigmoid and new = hardtanh (or the configured non-hard functions) of the biased linear maps of (hidden, input) and (forget*hidden, input). "
  "A missing hidden state means zeros, results lie in [-1, 1] with hard activations, and inputs are not modified.",
  ["inputs"], "every grid input, hidden state (and weights in the smallest case), hidden and input sizes 1-2, with and without bias",
  "tests run one random sequence",
  [K + "rnn.py"], [("HardMGUCell", K + "rnn.py:HardMGUCell")], observe=["HardMGUCell.forward"])

# ------------------------------------------------------------------ binary-domain layers
p("B01", "Fixed-point layers quantise operands and accumulate exactly",
  "The forward pass of the fixed-point linear layer and convolution equals the ordinary layer on operands rounded to the nearest multiple of 2^(e-width+1), saturated at 2^width-1 steps, where 2^e rates the operand's largest magnitude (central quantile bound) in the configured rounding mode; the bias is added unquantised. "
  "Operands and parameters are not modified and repeated calls agree.",
  ["inputs"], "every grid input (one to three elements, with and without a known maximum) and, in several cases, every grid weight; widths 2-6, rounding modes, amplitudes, quantiles, shapes, five convolution geometries",
  "tests run one random layer and print the error",
  [K + "linear.py", K + "conv.py", K + "utils.py"], [("FXPLinear", K + "linear.py:FXPLinear"), ("FXPConv2d", K + "conv.py"), ("rshift_offset", K + "utils.py")], observe=["forward"])
p("B02", "Hybrid layers multiply exactly as the bit-serial multiplier would",
  "The forward pass of the hybrid linear layer and convolution sums, for each input and weight magnitude rounded to its width and saturated one below the configured cycle count (the period when unspecified), the ones the conditional bit-serial multiplier yields over a period (the temporal operand, or else the input, controls the other's sequence), with the product of the signs; the sum is rescaled exactly and the unquantised bias added. "
  "Operands and parameters are not modified.",
  ["inputs"], "every grid input (one to three elements) and, in several cases, every grid weight; widths 2-5, cycle counts, rate and temporal sequences, rounding modes, shapes, five convolution geometries",
  "tests run one random layer and print the error",
  [K + "linear.py", K + "conv.py", K + "utils.py"], [("HUBLinear", K + "linear.py:HUBLinear"), ("HUBConv2d", K + "conv.py"), ("rshift_offset", K + "utils.py")], observe=["forward"])
p("B03", "Table look-up layers saturate each digit of the temporal operand",
  "The forward pass of the temporal table look-up layers equals the ordinary layer on operands truncated to their widths (for a floating-point format, on the values as they are), in which every widtht-bit digit of the temporal operand's magnitude (or mantissa) saturates one below the cycle count; the bias is added. "
  "With cycles unspecified, truncation is the only change, and floating-point operands are unchanged; operands and parameters are not modified.",
  ["inputs"], "every grid input (one to three elements) and, in several cases, every grid weight; temporal operand, digit widths 1-4, cycle counts, the three format combinations, shapes, five convolution geometries",
  "tests run one random layer and print the error",
  [K + "linear.py", K + "conv.py"], [("TLUTLinear", K + "linear.py"), ("TLUTConv2d", K + "conv.py")], observe=["forward"])
p("B04", "Quantised layers back-propagate the gradients of the ordinary layer",
  "The gradients the hybrid, fixed-point and table look-up layers return for input, weight and bias are exactly those of the corresponding ordinary linear layer or convolution with the unquantised operands (straight-through), for any upstream gradient. "
  "Operands not requiring a gradient get none.",
  ["inputs"], "every grid input, weight and upstream gradient (all symbolic); linear shapes and five convolution geometries, every subset of operands requiring gradients",
  "tests never compare gradients",
  [K + "linear.py", K + "conv.py"], [("HUBLinearFunction.backward", K + "linear.py"), ("FXPLinearFunction.backward", K + "linear.py")], observe=["autograd"])
p("B05", "Fixed-point rounding is saturating, and its gradient passes straight through",
  "Rounding to a fixed-point format gives the nearest multiple of 2^-fraction bits, saturated at +-(2^integer bits - 2^-fraction bits); a missing operand (None) stays missing. "
  "Its gradient is the upstream gradient unchanged.",
  ["inputs"], "grid inputs and upstream gradients (symbolic), several formats",
  "tests exercise rounding only inside one random recurrent cell",
  [K + "utils.py", K + "rnn.py"], [("RoundSTE / Round", K + "utils.py")], observe=["Round.forward", "HardMGUCellFXP.forward"])

# ------------------------------------------------------------------ utilities
p("U01", "Shape and padding helpers agree with the actual convolution",
  "For every kernel size, stride, padding and dilation the output-shape helper returns the shape an ordinary 2-d convolution produces, and the transposed one the shape of the transposed convolution; the padding helpers return paddings with which those shapes are the requested ones. "
  "Scalars and pairs mean the same.",
  ["configurations"], "all sizes up to 100, kernels up to 11, dilations up to 4, paddings up to 9 (scalar, per axis, per side) and requested sizes up to 100 as symbolic integers; strides 1-7",
  "no test calls the helpers",
  [K + "utils.py", K + "conv.py"], [("conv2d_output_shape", K + "utils.py"), ("convtransp2d_output_shape", K + "utils.py"), ("conv2d_get_padding", K + "utils.py")], observe=["return values"])
p("U02", "The weight clipper keeps weights legal and on the quantisation grid",
  "After clipping, every weight (and bias where there is one) lies in the legal range of its mode ([0, 1] or [-1, 1]), at a multiple of the step of the bit width, nearest to its previous (clamped) value; a frequency of one normalises on the first application, mapping the smallest and largest value to the ends of the range (constant data are clipped). "
  "It acts in place on the module's own parameters.",
  ["inputs", "histories"], "every grid weight and bias of two to six elements, including constant ones; both modes, bit widths 1-8, one to three applications",
  "tests never check the clipper",
  [K + "utils.py"], [("NN_SC_Weight_Clipper", K + "utils.py")], observe=["module parameters"])
p("U03", "Truncated normal initialisation stays within two deviations",
  "Every value of the tensor returned by truncated normal initialisation lies within two standard deviations of the mean, for whatever the generator draws: a legal first draw is kept and an illegal one is replaced by the first legal redraw of that element. "
  "Shape and dtype are kept.",
  ["inputs"], "up to three rounds of arbitrary float32 draws (symbolic floats), one to three elements, several means and deviations",
  "sampling cannot reach the extreme draws",
  [K + "utils.py"], [("truncated_normal", K + "utils.py")], observe=["returned tensor"])
p("U04", "Shift offsets scale operands into their bit width",
  "Each operand's offset is the base-two logarithm of its larger central quantile bound, rounded in the configured mode, less its width, and the output offset is the larger width less both rounded logarithms; so the scaled operand fills its width up to the rounding. "
  "All-zero operands count as magnitude one, and operands are not modified.",
  ["inputs"], "every grid operand of one to three elements, widths 1-8, the three rounding modes, quantiles, zero operands",
  "tests print the offsets for one tensor",
  [K + "utils.py"], [("rshift_offset", K + "utils.py")], observe=["rshift_offset"])

# ------------------------------------------------------------------ metrics
p("U05", "The printed summaries state the statistics of what they are given",
  "tensor_unary_outlier prints the minimum, the maximum and the percentage of values outside [-1, 1] of the tensor; progerror_report prints, per row, range, standard deviation and mean (and root mean square for errors) of the data the row names: the binary source, the unary value, the absolute error, the error relative to the unary value. Neither changes what it reports on.",
  ["inputs", "histories", "configurations"], "two-element tensors over grids around the bounds, alone or beside fixed values; two-element monitors after two arbitrary cycles",
  "tests print the summaries and look at none of their figures",
  [K + "utils.py", ME + "metric.py"], [("tensor_unary_outlier, progerror_report", "kernel/utils.py")], observe=["printed text"])
p("M01", "Stream correlation is the SCC of the observed bit pairs",
  "After any history the reported value is the stochastic-computing correlation computed from the counts of the pairs 11, 10, 01 and 00 seen so far, elementwise (pairs of a stream with its own previous bit when one stream is given). "
  "It lies in [-1, 1]; identical streams that are not constant give 1 and complementary ones -1. Observed streams are not modified.",
  ["histories"], "every pair of histories of 4-8 symbolic cycles, also after concrete prefixes; one- and two-stream use, shapes",
  "tests observe one random pair",
  [ME + "metric.py"], [("Correlation", ME + "metric.py:Correlation")], state=[("paired counts", "11, 10, 01, 00", ME + "metric.py")], observe=["Correlation.forward"])
p("M02", "Progressive error is the decoded prefix minus the clamped, scaled source",
  "After any prefix the reported value is ones/cycles (unipolar) or twice that minus one (bipolar), and the error is that value minus the source divided by scale and clamped to [-1, 1], elementwise. "
  "Monitoring modifies neither stream nor source.",
  ["inputs", "histories"], "every source on a grid and every history of 6-12 symbolic cycles, also after prefixes; both modes, scales",
  "tests monitor one random stream",
  [ME + "metric.py"], [("ProgError", ME + "metric.py:ProgError"), ("progerror_report", K + "utils.py")], observe=["ProgError.forward"])
p("M03", "Stability is one minus the fraction of cycles until the error stays small",
  "After any prefix, stability is 1 - c/cycles, where c is the last cycle (at least 1) whose progressive error exceeded the threshold in magnitude, elementwise. "
  "It lies in [0, 1), and monitoring does not modify streams.",
  ["inputs", "histories"], "every source on a grid and every history of 5-9 symbolic cycles, also after prefixes; both modes, thresholds",
  "tests monitor one random stream",
  [ME + "metric.py"], [("Stability", ME + "metric.py:Stability")], observe=["Stability.forward"])

# ------------------------------------------------------------------ cross-cutting
p("X01", "Elements and batch entries never influence one another",
  "Running a streaming component on a tensor gives each element (or batch entry) exactly the output history it would get when run alone. "
  "This holds for every stream generator, converter, kernel, layer and metric, whatever the shape.",
  ["histories", "configurations"], "every pair of input histories for two elements (symbolic), each component class",
  "tests look at averages over whole tensors",
  [ST + "gen.py", ST + "shuffle.py"] + [K + x + ".py" for x in "add conv div jkff linear mul relu rnn shiftreg sigmoid signabs sqrt".split()] + [ME + "metric.py"], [("per-element state", "kernel/*.py, stream/*.py, metric/metric.py")], observe=["forward"])
p("X02", "Components are deterministic, isolated and leave what they are given alone",
  "Two instances built from the same configuration and fed the same history give the same outputs, however their calls are interleaved with each other's or with other instances'. "
  "Neither constructing nor running a component changes the configuration, inputs, sources or weights it is given, and outputs already returned do not change later.",
  ["histories", "inputs"], "every history of a few symbolic cycles, each component class, interleaved instances",
  "tests use one instance at a time and never look at inputs or earlier outputs again",
  [ST + "gen.py", ST + "shuffle.py"] + [K + x + ".py" for x in "add conv div jkff linear mul relu rnn shiftreg sigmoid signabs sqrt".split()] + [ME + "metric.py"], [("per-instance buffers", "kernel/*.py, stream/*.py, metric/metric.py")], observe=["forward"])
p("X03", "Stream results do not depend on the dtype used to carry them",
  "For every component taking stream and buffer dtypes, the bits produced are the same for any choice of signed dtypes wide enough to hold its counters, and outputs are of the declared stream dtype (SkewedSync, CORDIV, the divider and the shift register expect their input streams in it too).",
  ["histories", "configurations"], "every history of a few symbolic cycles, also after 140-270 concrete ones with large registers, each component class, pairs of dtype choices",
  "tests use one dtype",
  [ST + "gen.py", ST + "shuffle.py"] + [K + x + ".py" for x in "add conv div jkff linear mul relu rnn shiftreg sigmoid signabs sqrt".split()] + [ME + "metric.py"], [("swcfg dtypes", "kernel/*.py, stream/*.py")], observe=["forward"])
p("X04", "Only tensor values count, not layout, gradient tracking, mode or copying",
  "The results of a component depend on the values it is given only: inputs, sources, weights and biases may be strided, transposed, channels-last or sliced views, and static data may be trainable parameters; training or evaluation mode and gradient recording change nothing. A deep copy taken at any point of a history continues that history, and from then on the original and the copy do not affect each other.",
  ["histories", "inputs", "configurations"], "every history of a few symbolic cycles, every component and quantised layer, four layouts, copies one to three cycles before the end",
  "tests use fresh contiguous tensors and never copy a component",
  [ST + "gen.py", ST + "shuffle.py"] + [K + x + ".py" for x in "add conv div jkff linear mul relu rnn shiftreg sigmoid signabs sqrt utils".split()] + [ME + "metric.py"], [("views of weights and inputs", "kernel/conv.py, kernel/linear.py"), ("per-instance buffers", "kernel/*.py, stream/*.py, metric/metric.py")], observe=["forward"])

HW = "hw/"
p("H01", "The converter and synchroniser hardware matches the simulators",
  "hw/stream/shuffle: SkewedSync.sv gives the bits of stream.SkewedSync of the same depth in the same cycle; Uni2Bi.sv and Bi2Uni.sv give the bits of stream.Uni2Bi / stream.Bi2Uni one cycle later (0 after reset), Bi2Uni as long as the accumulated excess of ones stays representable in DEP bits. hw/stream/shuffle_int/SkewedSyncInt.sv holds the integers received while in1 is 0, releases all it holds (at most 2**DEP-1) with the next 1 of in1, and never forgets or repeats what it holds. After reset nothing depends on what was in the registers.",
  ["histories", "inputs", "configurations"], "every input history of 10-14 cycles, or of 8 arbitrary cycles after 32 concrete ones, several depths; every power-up state",
  "the Python tests never look at hw/, and the test benches there only print waveforms",
  [HW + "stream/shuffle/" + x + ".sv" for x in ("Bi2Uni", "Uni2Bi", "SkewedSync")] + [HW + "stream/shuffle_int/SkewedSyncInt.sv", ST + "shuffle.py"],
  [("registers and output logic", "hw/stream/shuffle/*.sv, hw/stream/shuffle_int/*.sv")], observe=["module outputs, cycle by cycle"])
p("H02", "The sign, absolute-value and flip-flop hardware matches the simulators",
  "hw/kernel: Sign.sv and Abs.sv show the sign FSUSignAbs of the same depth gives for a step one cycle later (0 after reset), Abs.sv's abs is the input bit against that sign; JKFF.sv shows the state of kernel.JKFF one cycle later.",
  ["histories", "inputs", "configurations"], "every input history of 8-14 cycles, or 8 arbitrary cycles after 32 concrete ones, several depths; every power-up state",
  "the Python tests never look at hw/", [HW + "kernel/abs/Abs.sv", HW + "kernel/sign/Sign.sv", HW + "kernel/jkff/JKFF.sv", K + "signabs.py", K + "jkff.py"],
  [("saturating counter", "hw/kernel/abs/Abs.sv, hw/kernel/sign/Sign.sv"), ("JK case", "hw/kernel/jkff/JKFF.sv")], observe=["module outputs, cycle by cycle"])
p("H03", "The divider hardware is the correlated division it is made of",
  "hw/kernel/div: CORDIV_kernel.sv gives the dividend bit when the divisor bit is 1 and otherwise the remembered quotient bit randNum selects (the last DEP quotients, alternating 0/1 after reset); ISCBDIV_U.sv is that kernel behind the skewed synchroniser (with one register: bit for bit the unipolar FSUDiv); ISCBDIV_B.sv is absolute values, conversion to unipolar, ISCBDIV_U, conversion to bipolar and the product of the signs, each part registered as in H01/H02; GDIV_U.sv and GDIV_B.sv output counter > randNum for a counter that starts at half scale, saturates at both ends, and moves by the dividend against divisor*quotient (B: their bipolar counterparts, with the divisor delayed one cycle as decorrelator).",
  ["histories", "inputs", "configurations"], "every history of inputs and random numbers of 5-10 cycles, several depths; every power-up state",
  "the Python tests never look at hw/", [HW + "kernel/div/" + x + ".sv" for x in ("CORDIV_kernel", "ISCBDIV_U", "ISCBDIV_B", "GDIV_U", "GDIV_B")] + [K + "div.py"],
  [("quotient history", "hw/kernel/div/CORDIV_kernel.sv"), ("feedback counter", "hw/kernel/div/GDIV_*.sv")], observe=["module outputs, cycle by cycle"])
p("H04", "The square-root hardware closes the loop over its own output",
  "hw/kernel/sqrt: BISQRT_S_JK_U.sv is bit for bit FSUSqrt (unipolar, JK trace); BISQRT_O_U.sv is FSUSqrt with emission on the input one cycle later, for any register index; the _B versions do the same on the output converted to unipolar by a registered Bi2Uni; BISQRT_S_IS_* insert the quotient out/(out+1) of the CORDIV kernel fed by a toggling flip-flop; GSQRT_* compare a saturating half-scale counter, moved by the input against out*out (out delayed one cycle), with randNum. Every module elaborates as it stands in the file with its includes.",
  ["histories", "inputs", "configurations"], "every history of inputs and random numbers of 5-16 cycles, several depths; every power-up state",
  "the Python tests never look at hw/", [HW + "kernel/sqrt/" + x + ".sv" for x in ("BISQRT_O_B", "BISQRT_O_U", "BISQRT_S_IS_B", "BISQRT_S_IS_U", "BISQRT_S_JK_B", "BISQRT_S_JK_U", "GSQRT_B", "GSQRT_U")] + [K + "sqrt.py"],
  [("trace / emission loop", "hw/kernel/sqrt/BISQRT_*.sv"), ("feedback counter", "hw/kernel/sqrt/GSQRT_*.sv")], observe=["module outputs, cycle by cycle"])
p("H05", "The Sobol generator hardware draws the simulator's sequence",
  "SobolRNGDim1 (hw/stream/old/SobolRNG, hw/stream/old/SobolRNGs/SobolRNGDim1_3b..10b and the copies beside each kernel in hw/kernel/old): after k enabled cycles since reset its output is element k of RNG(Sobol, dimr 1) of the same width, whatever cycles were not enabled, over a whole period; the following period is a permutation as well.",
  ["schedules", "configurations"], "all enable patterns of the first 6 cycles, then whole periods; widths 3-10; counting for every threshold up to width 6",
  "the Python tests never look at hw/", [HW + "stream/old/SobolRNG/" + x + ".sv" for x in ("SobolRNGDim1", "SobolRNG", "LSZ", "cntWithEn")] + [HW + f"stream/old/SobolRNGs/SobolRNGDim1_{w}b.sv" for w in range(3, 11)] + [ST + "gen.py"],
  [("direction vectors and least-significant-zero lookup", "hw/stream/old/SobolRNG/*.sv, hw/stream/old/SobolRNGs/*.sv")], observe=["sobolSeq"])
p("H06", "The multiplier and adder hardware matches the simulators",
  "hw/kernel/old: uMUL_uni / uMUL_bi are bit for bit FSUMul with a static operand (Sobol, dimr 1) for every operand loaded, whenever it is loaded; uSADD8 / uSADD16 are bit for bit the unipolar FSUAdd with scale = number of inputs, i.e. exactly floor(ones so far / inputs) ones; parallelCnt7 / 15 count ones; gMUL_* and tMUL_uni produce comparisons of the loaded operands with the Sobol sequence; bADD and bMUL are exact and appear two cycles later; muxADD / orADD select / or with one cycle delay; apcADD compares the approximate count; cordiv keeps the valid quotients only, cordivall divides the operands regenerated from their running differences; gdiv4b/5b and gsqrt4b/5b are the saturating-counter feedback loops.",
  ["histories", "inputs", "configurations"], "every operand and input history of 3-10 cycles, widths 3-5 and 8; every input vector of the counters",
  "the Python tests never look at hw/", [HW + "kernel/old/" + x for x in ("uMUL_uni/uMUL_uni.sv", "uMUL_bi/uMUL_bi.sv", "uSADD/uSADD8.sv", "uSADD/uSADD16.sv", "parallelCnt/parallelCnt7.sv", "parallelCnt/parallelCnt15.sv", "gMUL_uni/gMUL_uni.sv", "gMUL_bi/gMUL_bi.sv", "tMUL_uni/tMUL_uni.sv", "bADD/bADD.sv", "bMUL/bMUL.sv", "muxADD/muxADD.sv", "orADD/orADD.sv", "cordiv/cordiv.sv", "cordivall/cordivall.sv", "gdiv/gdiv4b.sv", "gdiv/gdiv5b.sv", "gsqrt/gsqrt4b.sv", "gsqrt/gsqrt5b.sv", "tMUL_bi/tMUL_bi.sv", "apcADD/apcADD.sv")] + [K + "mul.py", K + "add.py"],
  [("operand buffer, generators and comparison", "hw/kernel/old/*MUL*"), ("carry-save counter and accumulator", "hw/kernel/old/uSADD, hw/kernel/old/parallelCnt")], observe=["module outputs, cycle by cycle"])
p("H07", "Multiply-accumulate and deterministic multiplier hardware is exact",
  "hw/kernel/old/MAC16: uMAC_{uni,bi}_scaled and uMAC_uni_nonscaled produce, bit for bit, what FSUMul with a static operand followed by FSUAdd (scale 16 or 1) produces - the unipolar ones what FSULinear(16, 1) produces - the non-scaled ones one cycle later; uMAC_bi_nonscaled and uNSADD8 / uNSADD16 emit a one exactly while the bipolar sum of their inputs so far is ahead of what they have emitted, negative sums included; tMAC_uni_nonscaled counts its temporal products; mac multiplies and accumulates; tMAC_*_scaled, gainMAC_* and dMAC_* select (or or) the comparisons of the loaded operands with their sequences; in dMUL_* and dMAC_* the second sequence advances once per turn of the first, so that the product over 2**(2w) cycles is exact.",
  ["histories", "inputs", "configurations"], "2-4 of 16 operands and input streams symbolic, the others drawn; 6-9 cycles for uMAC, 3-33 for the non-scaled adders (all inputs symbolic for 3-5), 8-60 for tMAC, 40-300 for gainMAC, 300-800 for dMAC, a whole product (2**(2w) cycles, w = 3-5, every operand pair) for dMUL; sums within the 11-bit registers",
  "the Python tests never look at hw/", [HW + f"kernel/old/MAC16/{x}/{x}.sv" for x in ("uMAC_uni_scaled", "uMAC_bi_scaled", "uMAC_uni_nonscaled", "uMAC_bi_nonscaled", "gainMAC_uni_scaled", "gainMAC_bi_scaled", "gainMAC_uni_nonscaled", "dMAC_uni_scaled", "dMAC_bi_scaled", "dMAC_uni_nonscaled", "tMAC_uni_nonscaled", "tMAC_uni_scaled", "tMAC_bi_scaled")] + [HW + "kernel/old/MAC16/bMAC_SIMD/mac.sv"] + [HW + "kernel/old/" + x for x in ("uNSADD/uNSADD8.sv", "uNSADD/uNSADD16.sv", "dMUL_uni/dMUL_uni.sv", "dMUL_bi/dMUL_bi.sv")] + [K + "mul.py", K + "add.py", K + "linear.py"],
  [("multiplier arrays, adders and sequence enables", "hw/kernel/old/MAC16"), ("sum and emitted-ones registers", "hw/kernel/old/uNSADD"), ("enable of the second sequence", "hw/kernel/old/dMUL_*")], observe=["module outputs, cycle by cycle"])
p("H08", "Sequence generators, trace roots and small units of the old hardware are exact",
  "hw/stream/old: HaltonSeq2/3/5 give the radical inverse of the cycle number (3 and 5 one cycle later), each value once per period; ModCnt* count modulo the base and carry when they wrap; grayCode gives the Gray code of the cycle number; LSZ / LSZ2 the least significant zero; SobolRNGtwo xors up the direction vectors its indices name, of two sequences stored in one table; skewedSync is stream.SkewedSync of depth 2. hw/kernel/old: iscbdiv is the first CORDIV kernel behind that synchroniser; jkdivbisqrt and sqrtJK are FSUSqrt (unipolar, JK trace) bit for bit; iscbdivbisqrt passes the input while the kernel's trace bit is 1; relu and sqrt are driven by counters from half scale that saturate at both ends; fixed-point adder and multiplier are exact one cycle later; add2 / add16 select, fulladder adds.",
  ["histories", "inputs", "configurations"], "every history of 8-10 cycles (also after 40-60 others) for the streaming units, whole periods for the sequences with every threshold, every word for the others (one factor of the product drawn), every power-up state",
  "the Python tests never look at hw/", [HW + "stream/old/" + x for x in ("HaltonSeq2/HaltonSeq2.sv", "HaltonSeq3/HaltonSeq3.sv", "HaltonSeq5/HaltonSeq5.sv", "HaltonSeq2/ModCnt2.sv", "HaltonSeq3/ModCnt3.sv", "HaltonSeq5/ModCnt5.sv", "GrayCode/grayCode.sv", "Sobol8bit/grayCode.sv", "Sobol8bit/LSZ.sv", "Sobol8bit/SobolRNGtwo.sv", "SobolSeq2/LSZ2.sv", "skewedSync/skewedSync.sv")] + [HW + "kernel/old/" + x for x in ("iscbdiv/iscbdiv.sv", "iscbdiv/skewedSync.sv", "iscbdivbisqrt/iscbdivbisqrt.sv", "jkdivbisqrt/jkdivbisqrt.sv", "sqrt/sqrtJK.sv", "sqrt/sqrt.sv", "relu/relu.sv", "add/add16.sv", "add/add2.sv", "add/fulladder.sv", "add/fixed_point_add16bit.sv", "mul/fixed_point_mul16bit.sv")] + [K + "sqrt.py", "stream/shuffle.py"],
  [("digit counters and weights", "hw/stream/old/HaltonSeq*"), ("vector table", "hw/stream/old/Sobol8bit"), ("held ones", "hw/stream/old/skewedSync, hw/kernel/old/iscbdiv"), ("saturating counters", "hw/kernel/old/relu, hw/kernel/old/sqrt")], observe=["module outputs, cycle by cycle"])

LEVEL = ("bounded symbolic execution of the real code: holds for all symbolic inputs within the listed configurations and bounds (in the evidence file); "
         "trusts the per-ATen-operation encodings (each value compared with torch's on every concolic run), z3, and the independent reference in checks/")
NA = {}


def main():
    import check
    have = check.load()
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
            f.write(json.dumps(q) + "\n")
    m = dict(version=1, setup_cmd="./run.sh --setup", checks=[], not_applicable=[],
             notes="Symbolic execution of /repo's Python through a TorchDispatchMode (symtorch/); decided by z3. See DESIGN.md.")
    for q in P:
        if q["id"] in have:
            m["checks"].append(dict(property=q["id"], quick_cmd=f"./run.sh {q['id']} quick", thorough_cmd=f"./run.sh {q['id']} thorough", evidence_file=f"evidence/{q['id']}.json",
                                    technique="symbolic execution of the real " + ("SystemVerilog and torch code" if q["id"][0] == "H" else "torch code") + ", SMT (z3 bit-vectors/floats) decides", level="model_checking", level_note=LEVEL))
        else:
            m["not_applicable"].append(dict(property=q["id"], reason=NA.get(q["id"], "check not built yet")))
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
