"""TorchDispatchMode that executes the real code on real tensors and, next to every
storage that depends on a symbolic input, keeps a shadow: storage position -> DAG node.

Data movement operations are run a second time on tensors of element indices, pointwise
and reduction operations are encoded element by element, any other pointwise operation
is tabulated over the finite domain of its operands with torch itself.  Every node's
value under the concrete inputs is compared with what torch computed."""
import math
import os
from fractions import Fraction
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_flatten, tree_map
import numpy as np
from . import ir
from .ir import Unsupported, Node

aten = torch.ops.aten
_tolist = torch._C.TensorBase.tolist

INTS = {torch.uint8: (8, False), torch.int8: (8, True), torch.int16: (16, True), torch.int32: (32, True), torch.int64: (64, True)}
PREC = {torch.float32: 24, torch.float64: 53, torch.float16: 11, torch.bfloat16: 8}
EMIN = {torch.float32: 149, torch.float64: 1074, torch.float16: 24, torch.bfloat16: 133}
EMAX = {torch.float32: 127, torch.float64: 1023, torch.float16: 15, torch.bfloat16: 127}
FMT = {torch.float32: "f32", torch.float64: "f64"}


FEASIBLE = []       # [predicate: can this condition hold on the current path]


class NoFallback(Unsupported):
    pass


class EngineMismatch(Exception):
    """encoding and torch disagree: the encoding is wrong"""


def offsets(t):
    shape, st, o = t.shape, t.stride(), t.storage_offset()
    r = np.array(o, dtype=np.int64)
    for n, s in zip(shape, st):
        r = r[..., None] + np.arange(n, dtype=np.int64) * s
    return r


def const_of(v):
    return ir.norm(v)


def cast_const(c, dt):
    """a python constant as torch stores it in dtype dt"""
    if isinstance(c, ir.FC):
        return c
    return ir.norm(torch.tensor(float(c) if dt.is_floating_point else c, dtype=dt).item()) if not isinstance(c, Node) else c


def rep(n, dt):
    """is every value of the exact node n representable in float dtype dt"""
    p = PREC[dt]
    m = max(abs(n.L), abs(n.H))
    if n.g <= EMIN[dt] and m <= (1 << p):
        return True
    # values chosen among representable ones
    if n.op not in ("ite", "tab", "min", "max", "abs"):
        return False
    k = (dt, n)
    r = _REP.get(k)
    if r is None:
        if n.op == "tab":
            r = all(cast_const(v, dt) == v for v in n.extra.values())
        else:
            r = all(rep(x, dt) if isinstance(x, Node) else cast_const(x, dt) == x for x in n.args[1 if n.op == "ite" else 0:])
        _REP[k] = r
    return r


_REP = {}           # keyed by node identity


class Lazy:
    """a shadow value built when it is first read"""
    def __init__(self, f, i):
        self.f, self.i = f, i

    def get(self):
        return self.f(self.i)


class SymMode(TorchDispatchMode):
    def __init__(self, path_hook=None):
        super().__init__()
        self.sh = {}            # storage _cdata -> (storage, {pos: node})
        self.path = []          # [(bool node, taken)]
        self.nops = 0
        self.nsym = 0
        self.nchecked = 0
        self.opset = {}
        self.hook = path_hook
        self.fallback = True
        self.executed = None
        self.nconc = {}
        self.cur = ""

    # ------------------------------------------------------------ shadows
    def dict_of(self, t):
        e = self.sh.get(t.untyped_storage()._cdata)
        return e[1] if e is not None else None

    def has(self, t):
        if self.sh.get(t.untyped_storage()._cdata) is None:
            return False
        d = self.dict_of(t)
        if not d:
            return False
        if t.numel() == 0:
            return False
        ks = d.keys()
        return any(int(p) in ks for p in offsets(t).ravel())

    def read(self, t):
        """object array of constants / nodes"""
        vals = t.detach()
        if vals.dtype in (torch.bfloat16, torch.float16):
            vals = vals.to(torch.float64)
        flat = _tolist(vals.reshape(-1))
        out = np.empty(len(flat), dtype=object)
        d = self.dict_of(t)
        offs = offsets(t).ravel() if d else None
        for i, v in enumerate(flat):
            if d:
                n = d.get(int(offs[i]))
                if n is not None:
                    if isinstance(n, Lazy):
                        n = n.get()
                        self.verify(n, v)
                    out[i] = n
                    continue
            out[i] = ir.norm(v)
        return out.reshape(tuple(t.shape))

    def write(self, t, arr, check=True):
        offs = offsets(t).ravel()
        arr = np.asarray(arr, dtype=object).reshape(-1)
        if len(arr) != len(offs):
            raise EngineMismatch(f"shape {len(arr)} vs {tuple(t.shape)}")
        st = t.untyped_storage()
        e = self.sh.get(st._cdata)
        d = e[1] if e else {}
        vals = t.detach()
        if vals.dtype in (torch.bfloat16, torch.float16):
            vals = vals.to(torch.float64)
        flat = _tolist(vals.reshape(-1))
        for o, n, v in zip(offs, arr, flat):
            o = int(o)
            if check and not isinstance(n, Lazy):
                self.verify(n, v)
            if isinstance(n, (Node, Lazy)):
                d[o] = n
            else:
                d.pop(o, None)
        if d and e is None:
            self.sh[st._cdata] = (st, d)

    def verify(self, n, v):
        c = ir.cvof(n)
        self.nchecked += 1
        if isinstance(c, ir.FC):
            c = c.v
        if isinstance(n, Node) and n.kind == "f":
            if (c != c and v != v) or c == v:
                return
        elif c == v or (isinstance(c, float) and c != c and v != v):
            return
        raise EngineMismatch(f"op {self.cur}: encoded {n} = {c}, torch computed {v}")

    def inject(self, t, arr):
        """attach nodes to an input tensor"""
        self.cur = "input"
        self.write(t, arr)

    # ------------------------------------------------------------ concretisation
    def concretize(self, n):
        """fix a symbolic scalar to its concrete value on this path"""
        if not isinstance(n, Node):
            return n
        if n.kind == "b":
            self.add_path(n, n.cv)
            return n.cv
        if n.kind == "n":
            self.add_path(ir.eq(n, n.cv), True)
            return n.cv
        self.add_path(ir.eq(n, ir.norm(n.cv)), True)
        return n.cv

    def add_path(self, b, taken):
        if isinstance(b, bool):
            return
        if b.op == "not":
            b, taken = b.args[0], not taken
        for q, t in self.path:
            if q is b:
                return
        self.path.append((b, taken))

    # ------------------------------------------------------------ dispatch
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        self.nops += 1
        name = func.overloadpacket.__name__
        self.cur = func.name()
        flat, _ = tree_flatten((args, kwargs))
        tens = [x for x in flat if isinstance(x, torch.Tensor)]
        symb = any(self.has(t) for t in tens)
        if not symb:
            if self.sh:
                # concrete write over a storage that has a shadow
                w = [t for t in self.written(func, args, kwargs) if self.dict_of(t)]
            else:
                w = ()
            r = special_concrete(self, name, func, args, kwargs)
            if r is None:
                r = func(*args, **kwargs)
            elif r is NotImplemented:
                r = func(*args, **kwargs)
            for t in w:
                d = self.dict_of(t)
                if d:
                    for o in offsets(t).ravel():
                        d.pop(int(o), None)
            return r
        self.nsym += 1
        self.opset[self.cur] = self.opset.get(self.cur, 0) + 1
        if name in ("_local_scalar_dense", "item"):
            n = self.read(args[0]).ravel()[0]
            self.concretize(n)
            return func(*args, **kwargs)
        if name == "equal":
            A, B = args[0], args[1]
            if tuple(A.shape) == tuple(B.shape):
                a, b = self.read(A).ravel(), self.read(B).ravel()
                self.concretize(ir.And(*[ir.eq(x, y) for x, y in zip(a, b)]))
            return func(*args, **kwargs)
        return self.guarded(func, name, args, kwargs, tens)

    def guarded(self, func, name, args, kwargs, tens):
        """encode the operation; when it has no encoding, split the path on its operands' values"""
        wr = self.written(func, args, kwargs)
        snap = self.nodes_of(tens) if wr else None
        self.executed = None
        try:
            return handle(self, func, name, args, kwargs, tens)
        except Exception as e:
            if not isinstance(e, Unsupported) and (isinstance(e, (EngineMismatch, RecursionError, MemoryError)) or not in_engine(e)):
                raise          # raised by torch itself: behaviour of the code under test
            if not self.fallback:
                raise
            done = self.executed if self.executed is not None and self.executed[0] is func else None
            if wr and done is None and isinstance(e, NoFallback):
                raise
            self.nconc[func.name()] = self.nconc.get(func.name(), 0) + 1
            for n in (snap if snap is not None else self.nodes_of(tens)):
                self.concretize(n)
            out = done[1] if (wr and done) else func(*args, **kwargs)
            outs = out if isinstance(out, (list, tuple)) else [out]
            src = {t.untyped_storage()._cdata for t in tens}
            for o in list(outs) + list(wr):
                if isinstance(o, torch.Tensor) and (o.untyped_storage()._cdata not in src or any(o is w for w in wr)):
                    d = self.dict_of(o)
                    if d:
                        for q in offsets(o).ravel():
                            d.pop(int(q), None)
            return out

    def nodes_of(self, tens):
        r, seen = [], set()
        for t in tens:
            d = self.dict_of(t)
            if d:
                for o in offsets(t).ravel():
                    n = d.get(int(o))
                    if isinstance(n, Lazy):
                        n = n.get()
                        if not isinstance(n, Node):
                            continue
                    if n is not None and n.id not in seen:
                        seen.add(n.id)
                        r.append(n)
        return r

    def written(self, func, args, kwargs):
        out = []
        for i, a in enumerate(func._schema.arguments):
            if a.alias_info is not None and a.alias_info.is_write:
                v = kwargs.get(a.name) if (a.kwarg_only or a.name in kwargs) else (args[i] if i < len(args) else None)
                if isinstance(v, torch.Tensor):
                    out.append(v)
                elif isinstance(v, (list, tuple)):
                    out.extend(x for x in v if isinstance(x, torch.Tensor))
        return out


def in_engine(e):
    """did an encoder (not torch) raise it"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(os.path.dirname(os.path.abspath(__file__)))


def special_concrete(mode, name, func, args, kwargs):
    h = getattr(mode, "rand_hook", None)
    if h is not None:
        return h(mode, name, func, args, kwargs)
    return None


# ======================================================================= ops
def bind(func, args, kwargs):
    d = {}
    for i, a in enumerate(func._schema.arguments):
        if a.name in kwargs:
            d[a.name] = kwargs[a.name]
        elif i < len(args) and not a.kwarg_only:
            d[a.name] = args[i]
        else:
            d[a.name] = a.default_value
    return d


def alias_outputs(tens, out):
    """is the output a view of one of the inputs' storages"""
    ids = {t.untyped_storage()._cdata for t in tens}
    outs = out if isinstance(out, (list, tuple)) else [out]
    return [isinstance(o, torch.Tensor) and o.untyped_storage()._cdata in ids for o in outs]


MOVEMENT = {"cat", "stack", "roll", "repeat", "index_select", "gather", "clone", "flip", "im2col", "_unsafe_view",
            "select_copy", "slice_copy", "expand_copy", "permute_copy", "transpose_copy", "view_copy", "unsqueeze_copy",
            "squeeze_copy", "as_strided_copy", "tril", "triu", "rot90", "repeat_interleave", "take", "take_along_dim",
            "select_scatter", "slice_scatter", "constant_pad_nd", "reflection_pad2d", "replication_pad2d", "contiguous",
            "split_copy", "unbind_copy", "diag", "movedim", "hstack", "vstack", "unsafe_split", "unsafe_chunk", "lift_fresh",
            "lift_fresh_copy", "lift", "detach_copy", "alias_copy", "_reshape_copy", "block_diag", "pixel_shuffle",
            "pixel_unshuffle", "channel_shuffle", "tile", "kron_", "unfold_copy", "index"}


def handle(mode, func, name, args, kwargs, tens):
    # plain views: run for real, storage is shared
    b = bind(func, args, kwargs)
    base = name[:-1] if name.endswith("_") and not name.endswith("__") else name
    if base.startswith("__i") and base.endswith("__"):     # __iand__ ...
        base = "__" + base[3:]
    wr = mode.written(func, args, kwargs)
    if base in NOVALUE:
        return func(*args, **kwargs)
    h = OPS.get(base)
    if h is not None:
        pre = h.pre(mode, func, b)            # symbolic values are read before the call
        out = func(*args, **kwargs)
        mode.executed = (func, out)
        outs = out if isinstance(out, (list, tuple)) else [out]
        res = h.post(mode, func, b, pre, out)
        if not isinstance(res, list):
            res = [res]
        for o, r in zip(outs, res):
            if r is None:
                continue
            mode.cur = func.name()
            mode.write(o, r)
        return out
    if base in MOVEMENT and not wr:
        return movement(mode, func, b, args, kwargs, tens)
    if base in MOVEMENT and wr and "out" in kwargs:
        kw = {k: v for k, v in kwargs.items() if k != "out"}
        f = getattr(func.overloadpacket, func._overloadname.replace("_out", "").replace("out", "") or "default", None) or func.overloadpacket.default
        tmp = [x for x in tree_flatten((args, kw))[0] if isinstance(x, torch.Tensor)]
        r = handle(mode, f, name, args, kw, tmp)
        arr = mode.read(r)
        out = func(*args, **kwargs)
        mode.write(out, arr)
        return out
    if not wr:
        # unknown: a view?
        out = None
        if all(a.alias_info is not None for a in func._schema.returns) and len(func._schema.returns):
            return func(*args, **kwargs)
        if base in TABULATED:
            return tabulate(mode, func, b, args, kwargs, tens)
        # decomposition
        r = try_decomp(mode, func, args, kwargs)
        if r is not NotImplemented:
            return r
        if torch.Tag.pointwise in func.tags:
            return tabulate(mode, func, b, args, kwargs, tens)
        if base in LINEAR:
            return linear(mode, func, b, args, kwargs, tens)
        raise Unsupported(f"operation {func.name()} on symbolic data")
    # written: functional twin, then copy
    r = functional_twin(mode, func, name, base, b, args, kwargs, wr)
    if r is not NotImplemented:
        return r
    raise Unsupported(f"operation {func.name()} on symbolic data")


NOVALUE = {"size", "stride", "sym_size", "is_same_size", "numel", "empty_like", "zeros_like", "ones_like", "full_like",
           "rand_like", "randn_like", "new_zeros", "new_ones", "new_empty", "new_full", "new_empty_strided", "_has_compatible_shallow_copy_type",
           "is_contiguous", "resize", "result_type", "_shape_as_tensor", "record_stream"}


def try_decomp(mode, func, args, kwargs):
    try:
        if torch._C._dispatch_has_kernel_for_dispatch_key(func.name(), "CompositeImplicitAutograd"):
            with mode:
                return func.decompose(*args, **kwargs)
    except (RuntimeError, AttributeError):
        pass
    from torch._decomp import decomposition_table as dt
    if func in dt:
        with mode:
            return dt[func](*args, **kwargs)
    return NotImplemented


def functional_twin(mode, func, name, base, b, args, kwargs, wr):
    """in-place / out= variant through the functional overload"""
    ns = getattr(torch.ops, func.namespace)
    try:
        pk = getattr(ns, base)
    except AttributeError:
        return NotImplemented
    kw = {k: v for k, v in kwargs.items() if k != "out"}
    ov = func._overloadname
    cands = [ov, ov.replace("_out", ""), "default", "Tensor", "Scalar"]
    for o in cands:
        f = getattr(pk, o, None)
        if f is None or f is func:
            continue
        if any(x.alias_info is not None and x.alias_info.is_write for x in f._schema.arguments):
            continue
        with mode:
            r = f(*args, **kw)
        arr = mode.read(r)
        out = func(*args, **kwargs)
        if out.dtype != r.dtype:
            arr = np.vectorize(lambda e: conform(e, out.dtype), otypes=[object])(arr)
        mode.write(out, arr)
        return out
    return NotImplemented


# ----------------------------------------------------------------- movement
def movement(mode, func, b, args, kwargs, tens):
    """run the operation on element indices"""
    name = func.overloadpacket.__name__
    if name == "index":
        r = sym_index(mode, func, b, args, kwargs)
        if r is not NotImplemented:
            return r
    elif name in ("gather", "index_select", "take", "take_along_dim", "repeat_interleave"):
        ix = b.get("index", b.get("indices", b.get("repeats")))
        if isinstance(ix, torch.Tensor) and mode.has(ix):
            if name in ("index_select",):
                return sym_index_select(mode, func, b, args, kwargs)
            if name == "gather":
                return sym_gather(mode, func, b, args, kwargs)
            if name == "take":
                return sym_take(mode, func, b, args, kwargs)
            for n in mode.read(ix).ravel():
                mode.concretize(n)
    elems = []

    idxnames = set()
    for a in func._schema.arguments:
        if a.name in ("index", "indices", "repeats"):
            idxnames.add(a.name)

    def enc(t):
        base = len(elems)
        elems.extend(mode.read(t).ravel())
        return torch.arange(base, base + t.numel(), dtype=torch.int64).reshape(t.shape)

    pad = None
    na, nk = [], {}
    for i, a in enumerate(func._schema.arguments):
        if a.name in kwargs:
            v, put = kwargs[a.name], lambda x, a=a: nk.__setitem__(a.name, x)
        elif i < len(args) and not a.kwarg_only:
            v, put = args[i], na.append
        else:
            continue
        if name == "index" and a.name == "indices" or a.name in idxnames:
            put(v)
        elif name == "constant_pad_nd" and a.name == "value":
            pad = v
            put(-1)
        elif name == "clone" or a.name in ("dtype", "layout", "device", "memory_format"):
            if isinstance(v, torch.Tensor):
                put(enc(v).clone())
            elif a.name == "memory_format":
                put(v)
            else:
                put(v)
        elif isinstance(v, torch.Tensor):
            put(enc(v))
        elif isinstance(v, (list, tuple)) and v and isinstance(v[0], torch.Tensor):
            put([enc(x) for x in v])
        else:
            put(v)
    if name == "constant_pad_nd" and pad is None:
        pad = 0
        na = na[:2] + [-1]
    elems.append(ir.norm(pad) if pad is not None else 0)
    if name in ("im2col",):
        # im2col pads with zero and needs floating point
        na = [x.to(torch.float64) + 1 if isinstance(x, torch.Tensor) else x for x in na]
        ids = func(*na, **nk).to(torch.int64) - 1
    elif name in ("tril", "triu"):
        na = [x + 1 if isinstance(x, torch.Tensor) else x for x in na]
        ids = func(*na, **nk) - 1
    else:
        ids = func(*na, **nk)
    out = func(*args, **kwargs)
    outs = out if isinstance(out, (list, tuple)) else [out]
    idl = ids if isinstance(ids, (list, tuple)) else [ids]
    for o, i in zip(outs, idl):
        arr = np.array([elems[j] for j in _tolist(i.reshape(-1))] + [None], dtype=object)[:-1]
        if o.dtype.is_floating_point:
            arr = np.array([ir.num(x) for x in arr] + [None], dtype=object)[:-1]
        mode.cur = func.name()
        mode.write(o, arr)
    return out


def select(idx, table):
    """table[idx] for a symbolic integer idx and a python list"""
    n = len(table)
    if not isinstance(idx, Node):
        return table[int(idx)]
    l, h = ir.lo(idx), ir.hi(idx)
    if l < 0:
        idx = ir.ite(ir.lt(idx, 0), ir.add(idx, n), idx)
        if not isinstance(idx, Node):
            return table[int(idx)]
        l, h = ir.lo(idx), ir.hi(idx)
        l = max(l, 0)
    if h >= n:
        # out of range is an IndexError in torch; the concrete run did not raise.
        # callers restrict inputs so that this is impossible, else report.
        raise IndexRange(idx, n)
    d = [int(x) for x in (ir.dom(idx) or range(l, h + 1)) if 0 <= x < n]
    if all(not isinstance(table[i], Node) and not isinstance(table[i], ir.FC) for i in d):
        return ir.tab(idx, {i: table[i] for i in d})
    r = table[d[-1]]
    for i in reversed(d[:-1]):
        r = ir.ite(ir.eq(idx, i), table[i], r)
    return r


class IndexRange(Unsupported):
    def __init__(self, idx, n):
        super().__init__(f"index not provably below {n}")
        self.idx, self.n = idx, n


def checked_index(mode, idx, n):
    """fork on the index being in range"""
    if not isinstance(idx, Node):
        return idx
    if ir.hi(idx) >= n or ir.lo(idx) < -n:
        ok = ir.And(ir.lt(idx, n), ir.le(-n, idx))
        mode.add_path(ok, True)      # concrete run is in range, the other side is explored separately
        t = {int(x): int(x) for x in (ir.dom(idx) or range(ir.lo(idx), ir.hi(idx) + 1)) if -n <= x < n}
        fb = next(iter(t))
        m = {int(x): t.get(int(x), fb) for x in (ir.dom(idx) or range(ir.lo(idx), ir.hi(idx) + 1))}
        return ir.tab(idx, m)
    return idx


def sym_index(mode, func, b, args, kwargs):
    self, indices = b["self"], b["indices"]
    if not any(isinstance(i, torch.Tensor) and mode.has(i) for i in indices if i is not None):
        return NotImplemented
    for i in indices:
        if i is not None and i.dtype in (torch.bool, torch.uint8) and mode.has(i):
            for n in mode.read(i).ravel():
                mode.concretize(n)
            return NotImplemented
    if any(i is not None and i.dtype == torch.bool for i in indices):
        raise Unsupported("mixed mask index")
    # indices must be a leading block
    k = len(indices)
    while k and indices[k - 1] is None:
        k -= 1
    if any(i is None for i in indices[:k]):
        raise Unsupported("index with gaps")
    out = func(*args, **kwargs)
    src = mode.read(self)
    ixs = [mode.read(i) for i in indices[:k]]
    shp = np.broadcast_shapes(*[x.shape for x in ixs])
    ixs = [np.broadcast_to(x, shp) for x in ixs]
    rest = src.shape[k:]
    res = np.empty(shp + rest, dtype=object)
    for p in np.ndindex(*shp):
        lin = 0
        for d in range(k):
            v = checked_index(mode, ixs[d][p], src.shape[d])
            if ir.lo(v) < 0:
                v = ir.ite(ir.lt(v, 0), ir.add(v, src.shape[d]), v)
            lin = ir.add(ir.mul(lin, src.shape[d]), v)
        n = int(np.prod(src.shape[:k]))
        S = src.reshape((n,) + rest)
        for q in np.ndindex(*rest):
            res[p + q] = select(lin, [S[(j,) + q] for j in range(n)])
    mode.cur = func.name()
    mode.write(out, res)
    return out


def sym_index_select(mode, func, b, args, kwargs):
    self, dim, index = b["self"], b["dim"], b["index"]
    out = func(*args, **kwargs)
    src = np.moveaxis(mode.read(self), dim, 0)
    ix = mode.read(index).ravel()
    res = np.empty((len(ix),) + src.shape[1:], dtype=object)
    for i, v in enumerate(ix):
        v = checked_index(mode, v, src.shape[0])
        for q in np.ndindex(*src.shape[1:]):
            res[(i,) + q] = select(v, [src[(j,) + q] for j in range(src.shape[0])])
    mode.write(out, np.moveaxis(res, 0, dim))
    return out


def sym_gather(mode, func, b, args, kwargs):
    self, dim, index = b["self"], b["dim"], b["index"]
    out = func(*args, **kwargs)
    src = mode.read(self)
    ix = mode.read(index)
    dim = dim % src.ndim
    res = np.empty(ix.shape, dtype=object)
    for p in np.ndindex(*ix.shape):
        v = checked_index(mode, ix[p], src.shape[dim])
        res[p] = select(v, [src[p[:dim] + (j,) + p[dim + 1:]] for j in range(src.shape[dim])])
    mode.write(out, res)
    return out


def _scatter_pre(mode, func, b):
    s = b.get("src")
    return mode.read(b["self"]), mode.read(b["index"]), mode.read(s) if isinstance(s, torch.Tensor) else ir.norm(b["value"] if s is None else s)


def _scatter(accum):
    def post(mode, func, b, p, out):
        S, I, V = p
        if b.get("reduce") is not None:
            raise Unsupported("scatter with a reduction")
        if S.ndim == 0:
            raise Unsupported("scatter into a scalar")
        S, d, dt = S.copy(), b["dim"] % S.ndim, out.dtype
        if not accum and I.shape[d] > 1 and any(isinstance(i, Node) for i in I.ravel()) and isinstance(V, np.ndarray):
            raise Unsupported("scatter to places that may collide")
        for q in np.ndindex(*I.shape):
            i = checked_index(mode, I[q], S.shape[d])
            v = conform(V[q] if isinstance(V, np.ndarray) else V, dt)
            for j in range(S.shape[d]):
                c = ir.eq(i, j)
                if isinstance(c, (bool, np.bool_)) and not c:
                    continue
                at = q[:d] + (j,) + q[d + 1:]
                S[at] = conform(ir.ite(c, t_add(S[at], v, dt) if accum else v, S[at]), dt)
        return S
    return post


def sym_take(mode, func, b, args, kwargs):
    out = func(*args, **kwargs)
    src = mode.read(b["self"]).ravel()
    ix = mode.read(b["index"])
    res = np.empty(ix.shape, dtype=object)
    for p in np.ndindex(*ix.shape):
        res[p] = select(checked_index(mode, ix[p], len(src)), list(src))
    mode.write(out, res)
    return out


# ----------------------------------------------------------------- typed arithmetic
def conform(x, dt, inexact=None):
    """exact result x stored in dtype dt"""
    if dt == torch.bool:
        if ir.is_bool(x):
            return x
        if isinstance(x, ir.FC):
            return True
        return ir.ne(x, 0)
    x = ir.num(x)
    if dt in INTS:
        if isinstance(x, ir.FC):
            raise Unsupported("non finite to int")
        if not isinstance(x, Node):
            if x != int(x):
                x = math.trunc(x)
            return ir.norm(torch.tensor(x).to(dt).item()) if abs(x) < 2 ** 62 else x
        if x.kind == "f":
            if x.L is not None:
                return ir.f2n(ir.fop("ftrunc", x), math.floor(x.L), math.ceil(x.H))
            raise Unsupported("float to int of unknown range")
        x = ir.truncv(x)
        return ir.wrap(x, *INTS[dt]) if isinstance(x, Node) else x
    if dt not in PREC:
        raise Unsupported(f"dtype {dt}")
    if not isinstance(x, Node):
        return cast_const(x, dt)
    if x.kind == "f":
        if FMT.get(dt) == x.fmt:
            return x
        if dt in FMT:
            return ir.fop("fcast", x, fmt=FMT[dt])
        raise Unsupported(f"float to {dt}")
    if rep(x, dt):
        return x
    d = ir.dom(x)
    if d is not None and len(d) <= 64:
        return ir.tab(x, {k: cast_const(k, dt) for k in d})
    r = round_n(x, dt)
    if r is not None:
        return r
    if inexact is not None:
        r = inexact()
        if r is not None:
            return r
    if d is not None:
        return ir.tab(x, {k: cast_const(k, dt) for k in d})
    if dt in FMT:
        return ir.fop("fcast", x, fmt=FMT[dt])
    raise Unsupported(f"rounding to {dt}")


def round_n(x, dt):
    """an exact number rounded to the precision of dt (half to even), binade by binade; None when out of reach"""
    p = PREC[dt]
    m = max(abs(x.L), abs(x.H)).bit_length()
    if m - p > 34 or m > 90 or m - x.g > EMAX[dt] or x.g > EMIN[dt]:
        return None
    r, ax = x, ir.absv(x)
    for j in range(1, m - p + 1):
        y = ir.mul(ir.roundv(ir.mul(x, Fraction(2) ** (x.g - j))), Fraction(2) ** (j - x.g))
        r = ir.ite(ir.lt(ax, Fraction(2) ** (p + j - 1 - x.g)), r, y)
    return r


def finite(*xs):
    return all(not ir.is_fp(x) for x in xs)


def t_add(a, b, dt):
    if finite(a, b):
        return conform(ir.add(a, b), dt, (lambda: ir.fop("fadd", a, b, fmt=FMT[dt])) if dt in FMT else None) if not _small(ir.add(a, b)) else conform(ir.add(a, b), dt)
    return fnum("fadd", a, b, dt)


def _small(x):
    return isinstance(x, Node) and ir.dom(x, ir.CAP) is not None and len(ir.dom(x)) <= 64


def t_sub(a, b, dt):
    if finite(a, b):
        r = ir.sub(a, b)
        return conform(r, dt, (lambda: ir.fop("fsub", a, b, fmt=FMT[dt])) if dt in FMT and not _small(r) else None)
    return fnum("fsub", a, b, dt)


def t_mul(a, b, dt):
    if finite(a, b):
        r = ir.mul(a, b)
        return conform(r, dt, (lambda: ir.fop("fmul", a, b, fmt=FMT[dt])) if dt in FMT and not _small(r) else None)
    # 0/1 factors of float nodes
    for x, y in ((a, b), (b, a)):
        x = ir.num(x)
        if isinstance(x, Node) and x.op == "b2i" and isinstance(y, Node):
            return ir.ite(x.args[0], y, 0)      # y is finite in every harness; sign of zero ignored
    return fnum("fmul", a, b, dt)


def fnum(op, a, b, dt):
    if dt not in FMT:
        raise Unsupported(f"float op in {dt}")
    return ir.fop(op, a, b, fmt=FMT[dt])


def np_div(x, y, dt):
    t = torch.tensor(float(x), dtype=dt).div(torch.tensor(float(y), dtype=dt)).item()
    return ir.norm(t)


def t_div(a, b, dt):
    a, b = ir.num(a), ir.num(b)
    if not isinstance(a, Node) and not isinstance(b, Node):
        fa = a.v if isinstance(a, ir.FC) else float(a)
        fb = b.v if isinstance(b, ir.FC) else float(b)
        return np_div(fa, fb, dt)
    if finite(a, b):
        if not isinstance(b, Node) and b != 0:
            n, d = Fraction(b).numerator, Fraction(b).denominator
            if n & (abs(n) - 1) == 0 or (abs(n) & (abs(n) - 1)) == 0:
                r = ir.mul(a, Fraction(1) / Fraction(b))
                return conform(r, dt)
        r = tab2(lambda x, y: np_div(x, y, dt), a, b)
        if r is not None:
            return r
        return fnum("fdiv", a, b, dt)
    return fnum("fdiv", a, b, dt)


def tab2(f, a, b, cap=4096):
    """finite two operand table; None when too large"""
    da, db = ir.dom(a), ir.dom(b)
    if da is None or db is None or len(da) * len(db) > cap:
        return None
    if not isinstance(b, Node):
        return tabf(a, {x: f(x, b) for x in da})
    if not isinstance(a, Node):
        return tabf(b, {y: f(a, y) for y in db})
    if FEASIBLE and any(isinstance(f(x, y), ir.FC) for x in da[:1] for y in db):
        db = [y for y in db if not isinstance(f(da[0], y), ir.FC) or y == b.cv or FEASIBLE[0](ir.eq(b, y))]
    r = None
    for y in reversed(db):
        t = tabf(a, {x: f(x, y) for x in da})
        r = t if r is None else fitef(ir.eq(b, y), t, r)
    return r


def fitef(c, a, b):
    return ir.ite(c, a, b)


def tabf(a, m):
    """table that may contain non finite entries"""
    bad = {k: v for k, v in m.items() if isinstance(v, ir.FC)}
    if not bad:
        return ir.tab(a, m)
    if FEASIBLE and isinstance(a, Node) and len(bad) < len(m) and a.cv not in bad:
        # entries no input can reach (under the assumptions and the path so far)
        for k in list(bad):
            if not FEASIBLE[0](ir.eq(a, k)):
                del bad[k]
        if not bad:
            good = {k: v for k, v in m.items() if not isinstance(v, ir.FC)}
            fill = good[a.cv]
            return ir.tab(a, {k: good.get(k, fill) for k in m})
    good = {k: v for k, v in m.items() if not isinstance(v, ir.FC)}
    if good:
        fill = next(iter(good.values()))
        full = {k: good.get(k, fill) for k in m}
        cvk = ir.cvof(a)
        r = ir.tab(a, full)
        for k, v in bad.items():
            r = ir.fite(ir.eq(a, k), v, r)
        return r
    r = None
    for k, v in bad.items():
        r = v if r is None else ir.fite(ir.eq(a, k), v, r)
    return r


def t_cmp(op):
    def f(a, b, dt):
        a, b = ir.num(a), ir.num(b)
        if not finite(a, b):
            if op == "eq": return ir.fcmp("feq", a, b)
            if op == "ne": return ir.Not(ir.fcmp("feq", a, b))
            if op == "lt": return ir.fcmp("flt", a, b)
            if op == "le": return ir.fcmp("fle", a, b)
            if op == "gt": return ir.fcmp("flt", b, a)
            if op == "ge": return ir.fcmp("fle", b, a)
        return {"eq": ir.eq, "ne": ir.ne, "lt": ir.lt, "le": ir.le, "gt": lambda x, y: ir.lt(y, x), "ge": lambda x, y: ir.le(y, x)}[op](a, b)
    return f


def t_min(a, b):
    if finite(a, b):
        return ir.minv(a, b)
    # torch propagates nan; ite(x > hi, hi, x) keeps a nan x
    return ir.fite(ir.fcmp("flt", b, a), b, a)


def t_max(a, b):
    if finite(a, b):
        return ir.maxv(a, b)
    return ir.fite(ir.fcmp("flt", a, b), b, a)


def bnd(x, l, h):
    """attach bounds to a float node (used for float -> int)"""
    return x


# ----------------------------------------------------------------- handler objects
class Op:
    def __init__(self, pre, post):
        self.pre, self.post = pre, post


OPS = {}


def result_dtype(func, b, names):
    ts = [b[n] for n in names if isinstance(b[n], (torch.Tensor, int, float, bool))]
    r = ts[0]
    dt = r.dtype if isinstance(r, torch.Tensor) else None
    acc = ts[0]
    if len(ts) == 1:
        return dt
    dt = torch.result_type(ts[0], ts[1])
    for t in ts[2:]:
        dt = torch.promote_types(dt, t.dtype if isinstance(t, torch.Tensor) else dt)
    return dt


def scalar_in(v, dt):
    """python scalar as the kernel sees it when computing in dtype dt"""
    if isinstance(v, bool) or v is None:
        return v
    if dt == torch.float32 or dt in (torch.float16, torch.bfloat16):
        return ir.norm(float(np.float32(v))) if isinstance(v, float) or abs(v) > 2 ** 24 else ir.norm(v)
    return ir.norm(v)


def pointwise(names, argn, fn, compare=False):
    """fn(b, dt, *elems) -> exact or float node; dt compute dtype"""
    def pre(mode, func, b):
        dt = result_dtype(func, b, [n for n in argn if b.get(n) is not None])
        els = []
        for n in argn:
            v = b.get(n)
            if isinstance(v, torch.Tensor):
                els.append(mode.read(v))
            else:
                els.append(scalar_in(v, dt))
        return dt, els

    def post(mode, func, b, pre_, out):
        dt, els = pre_
        shp = tuple(out.shape)
        arrs = []
        for e in els:
            if isinstance(e, np.ndarray):
                arrs.append(np.broadcast_to(e, np.broadcast_shapes(e.shape, shp)).reshape(-1))
            else:
                arrs.append(None)
        res = np.empty(int(np.prod(shp)) if shp else 1, dtype=object)
        odt = out.dtype
        for i in range(len(res)):
            xs = [a[i] if a is not None else e for a, e in zip(arrs, els)]
            r = fn(b, dt, *xs)
            res[i] = conform(r, odt)
        return res

    for n in names.split():
        OPS[n] = Op(pre, post)


def alpha(b, dt, y):
    a = b.get("alpha", 1)
    if a is None or a == 1:
        return y
    return t_mul(y, scalar_in(a, dt), dt)


pointwise("add", ("self", "other"), lambda b, dt, x, y: ir.Or(x, alpha(b, dt, y)) if dt == torch.bool else t_add(x, alpha(b, dt, y), dt))
pointwise("sub", ("self", "other"), lambda b, dt, x, y: t_sub(x, alpha(b, dt, y), dt))
pointwise("rsub", ("self", "other"), lambda b, dt, x, y: t_sub(y, alpha(b, dt, x), dt))
pointwise("mul", ("self", "other"), lambda b, dt, x, y: ir.And(x, y) if dt == torch.bool else t_mul(x, y, dt))


def _floordiv(x, y, dt):
    x, y = ir.num(x), ir.num(y)
    if not isinstance(y, Node) and not ir.is_fp(x) and y != 0:
        q = ir.floorv(ir.mul(x, Fraction(1) / Fraction(y))) if Fraction(y).numerator in (1, -1) or (abs(Fraction(y).numerator) & (abs(Fraction(y).numerator) - 1)) == 0 else None
        if q is not None:
            return q
        if isinstance(y, int) and y > 0 and (not isinstance(x, Node) or x.g <= 0):
            return ir.fdivc(x, y)
    r = tab2(lambda p, q: ir.norm(torch.floor_divide(torch.tensor(float(p) if dt.is_floating_point else p, dtype=dt), torch.tensor(float(q) if dt.is_floating_point else q, dtype=dt)).item()), x, y)
    if r is None:
        raise Unsupported("floor_divide")
    return r


def _div(b, dt, x, y):
    rm = b.get("rounding_mode")
    if rm is None:
        cdt = dt if dt.is_floating_point else torch.get_default_dtype()
        return t_div(x, y, cdt)
    if rm == "floor":
        return _floordiv(x, y, dt)
    if rm == "trunc":
        x, y = ir.num(x), ir.num(y)
        if not isinstance(y, Node) and not ir.is_fp(x) and y != 0:
            return ir.ite(ir.lt(x, 0), ir.neg(_floordiv(ir.neg(x), y, dt)), _floordiv(x, y, dt)) if y > 0 else _raise("trunc div")
    raise Unsupported("div rounding mode")


def _raise(m):
    raise Unsupported(m)


pointwise("div true_divide divide", ("self", "other"), _div)
pointwise("floor_divide", ("self", "other"), lambda b, dt, x, y: _floordiv(x, y, dt))


def _remainder(b, dt, x, y):
    x, y = ir.num(x), ir.num(y)
    if not isinstance(y, Node) and isinstance(y, int) and y > 0 and not ir.is_fp(x):
        return ir.modc(x, y)
    r = tab2(lambda p, q: ir.norm(torch.remainder(torch.tensor(float(p) if dt.is_floating_point else p, dtype=dt), torch.tensor(float(q) if dt.is_floating_point else q, dtype=dt)).item()), x, y)
    if r is None:
        raise Unsupported("remainder")
    return r


pointwise("remainder", ("self", "other"), _remainder)


def _fmod(b, dt, x, y):
    x, y = ir.num(x), ir.num(y)
    if ir.is_fp(x) or ir.is_fp(y) or isinstance(y, Node) or not y:
        return _raise("fmod")
    if ir.lo(x) >= 0 and y > 0:
        return _remainder(b, dt, x, y)
    r = _remainder(b, dt, ir.absv(x), abs(y))
    return ir.ite(ir.lt(x, 0), ir.neg(r), r)


pointwise("fmod", ("self", "other"), _fmod)
pointwise("neg negative", ("self",), lambda b, dt, x: ir.fop("fneg", x) if ir.is_fp(x) else ir.neg(x))
pointwise("positive alias detach", ("self",), lambda b, dt, x: x)
del OPS["alias"], OPS["detach"]
pointwise("abs absolute", ("self",), lambda b, dt, x: ir.fop("fabs", x) if ir.is_fp(x) else ir.absv(x))
pointwise("sign sgn", ("self",), lambda b, dt, x: ir.sub(ir.num(t_cmp("lt")(0, x, dt)), ir.num(t_cmp("lt")(x, 0, dt))))
pointwise("square", ("self",), lambda b, dt, x: t_mul(x, x, dt))
for _n in ("eq", "ne", "lt", "le", "gt", "ge"):
    pointwise(_n, ("self", "other"), lambda b, dt, x, y, _n=_n: t_cmp(_n)(x, y, dt))


def tobool(x):
    if ir.is_bool(x):
        return x
    if ir.is_fp(x):
        return ir.Not(ir.fcmp("feq", x, 0))
    return ir.ne(x, 0)


pointwise("logical_and", ("self", "other"), lambda b, dt, x, y: ir.And(tobool(x), tobool(y)))
pointwise("logical_or", ("self", "other"), lambda b, dt, x, y: ir.Or(tobool(x), tobool(y)))
pointwise("logical_xor", ("self", "other"), lambda b, dt, x, y: ir.Xor(tobool(x), tobool(y)))
pointwise("logical_not", ("self",), lambda b, dt, x: ir.Not(tobool(x)))


def _bit(op):
    def f(b, dt, x, y):
        if dt == torch.bool:
            return {"and": ir.And, "or": ir.Or, "xor": ir.Xor}[op](x, y)
        return ir.bitop(op, x, y)
    return f


for _n, _o in (("bitwise_and", "and"), ("bitwise_or", "or"), ("bitwise_xor", "xor"), ("__and__", "and"), ("__or__", "or"), ("__xor__", "xor")):
    pointwise(_n, ("self", "other"), _bit(_o))
pointwise("bitwise_not", ("self",), lambda b, dt, x: ir.Not(x) if dt == torch.bool else ir.sub(-1, x))


def _shl(b, dt, x, y):
    x, y = ir.num(x), ir.num(y)
    if not isinstance(y, Node):
        return ir.mul(x, 1 << int(y))
    raise Unsupported("symbolic shift")


def _shr(b, dt, x, y):
    x, y = ir.num(x), ir.num(y)
    if not isinstance(y, Node):
        return ir.floorv(ir.mul(x, Fraction(1, 1 << int(y))))
    raise Unsupported("symbolic shift")


pointwise("__lshift__ bitwise_left_shift", ("self", "other"), _shl)
pointwise("__rshift__ bitwise_right_shift", ("self", "other"), _shr)
pointwise("where", ("condition", "self", "other"), lambda b, dt, c, x, y: ir.ite(tobool(c), x, y))
_wh = OPS["where"]


def _where_pre(mode, func, b):
    # result dtype comes from self/other only
    if func._overloadname == "default":
        raise Unsupported("where(cond)")
    dt = result_dtype(func, b, ("self", "other"))
    els = [mode.read(b[n]) if isinstance(b[n], torch.Tensor) else scalar_in(b[n], dt) for n in ("condition", "self", "other")]
    return dt, els


OPS["where"] = Op(_where_pre, _wh.post)
pointwise("masked_fill", ("self", "value"), lambda b, dt, x, y: x)


def _mf_pre(mode, func, b):
    s, v = b["self"], b["value"]
    return s.dtype, [mode.read(s), mode.read(b["mask"]), mode.read(v) if isinstance(v, torch.Tensor) else scalar_in(v, s.dtype)]


def _mf_post(mode, func, b, p, out):
    dt, (x, m, v) = p
    shp = tuple(out.shape)
    x, m = np.broadcast_to(x, shp).reshape(-1), np.broadcast_to(m, shp).reshape(-1)
    v = v.ravel()[0] if isinstance(v, np.ndarray) else v
    return np.array([ir.ite(tobool(c), cast_const(v, dt), e) for e, c in zip(x, m)] + [None], dtype=object)[:-1]


OPS["masked_fill"] = Op(_mf_pre, _mf_post)


def _clamp(b, dt, x, l, h):
    if l is not None:
        x = t_max(x, l)
    if h is not None:
        x = t_min(x, h)
    return x


pointwise("clamp clip", ("self", "min", "max"), _clamp)
pointwise("clamp_min", ("self", "min"), lambda b, dt, x, l: t_max(x, l))
pointwise("clamp_max", ("self", "max"), lambda b, dt, x, h: t_min(x, h))
pointwise("maximum fmax", ("self", "other"), lambda b, dt, x, y: ir.Or(x, y) if dt == torch.bool else t_max(x, y))
pointwise("minimum fmin", ("self", "other"), lambda b, dt, x, y: ir.And(x, y) if dt == torch.bool else t_min(x, y))
pointwise("relu", ("self",), lambda b, dt, x: t_max(x, 0))
pointwise("hardtanh", ("self", "min_val", "max_val"), _clamp)
pointwise("round", ("self",), lambda b, dt, x: (ir.fop("fround", x) if ir.is_fp(x) else ir.roundv(x)) if not b.get("decimals") else _raise("decimals"))
pointwise("floor", ("self",), lambda b, dt, x: ir.fop("ffloor", x) if ir.is_fp(x) else ir.floorv(x))
pointwise("ceil", ("self",), lambda b, dt, x: ir.fop("fceil", x) if ir.is_fp(x) else ir.ceilv(x))
pointwise("trunc fix", ("self",), lambda b, dt, x: ir.fop("ftrunc", x) if ir.is_fp(x) else ir.truncv(x))
pointwise("frac", ("self",), lambda b, dt, x: ir.fop("fsub", x, ir.fop("ftrunc", x)) if ir.is_fp(x) else ir.sub(x, ir.truncv(x)))
pointwise("isnan", ("self",), lambda b, dt, x: ir.fisnan(x))
pointwise("lerp", ("self", "end", "weight"), lambda b, dt, x, e, w: _lerp(x, e, w, dt))


def _lerp(s, e, w, dt):
    w = ir.num(w)
    d = t_sub(e, s, dt)
    if isinstance(w, Node):
        near = t_add(s, t_mul(w, d, dt), dt)
        far = t_sub(e, t_mul(d, t_sub(1, w, dt), dt), dt)
        half = Fraction(1, 2)
        return ir.ite(ir.And(ir.lt(-half, w), ir.lt(w, half)), near, far)
    if abs(w) < Fraction(1, 2):
        return t_add(s, t_mul(w, d, dt), dt)
    return t_sub(e, t_mul(d, t_sub(1, w, dt), dt), dt)


def _hardsigmoid(b, dt, x):
    # x + 3 clamped to [0, 6], then divided by 6
    r = t_min(t_max(t_add(x, 3, dt), 0), 6)
    return t_div(r, 6, dt)


pointwise("hardsigmoid", ("self",), _hardsigmoid)
pointwise("addcmul", ("self", "tensor1", "tensor2"), lambda b, dt, x, p, q: t_add(x, t_mul(t_mul(p, q, dt), scalar_in(b.get("value", 1), dt), dt), dt))


def _pow(b, dt, x, y):
    x, y = ir.num(x), ir.num(y)
    if not isinstance(y, Node) and y in (1, 2, 3):
        r = x
        for _ in range(y - 1):
            r = t_mul(r, x, dt)
        return r
    def f(p, q):
        # evaluate with the same tensor/scalar form torch used
        s, e = b["self"], b["exponent"]
        ts = torch.tensor([float(p)] , dtype=dt) if isinstance(s, torch.Tensor) else s
        te = torch.tensor([float(q)], dtype=dt) if isinstance(e, torch.Tensor) else e
        return ir.norm(torch.pow(ts, te).item())
    r = tab2(f, x, y)
    if r is None:
        raise Unsupported("pow")
    return r


pointwise("pow", ("self", "exponent"), _pow)


def tabulate(mode, func, b, args, kwargs, tens):
    """any other pointwise operation, over the finite domain of one symbolic operand per element"""
    symt = [t for t in tens if mode.has(t)]
    if len({id(t) for t in symt}) != 1 or "out" in kwargs:
        raise Unsupported(f"{func.name()} with several symbolic operands")
    t = symt[0]
    arr = mode.read(t)
    out = func(*args, **kwargs)
    shp = tuple(out.shape)
    if tuple(t.shape) != shp:
        raise Unsupported(f"{func.name()} broadcasting")
    if any(isinstance(x, torch.Tensor) and x is not t and x.numel() != 1 for x in tens):
        raise Unsupported(f"{func.name()} with a second tensor")
    res = []
    memo = {}
    for e, ov in zip(arr.ravel(), _tolist(out.reshape(-1))):
        if not isinstance(e, Node):
            res.append(ir.norm(ov))
            continue
        if e.id not in memo:
            d = ir.dom(e)
            if d is None:
                if e.kind == "f" and func.overloadpacket.__name__ == "sqrt":
                    memo[e.id] = ir.fop("fsqrt", e)
                    res.append(memo[e.id])
                    continue
                raise Unsupported(f"{func.name()} over a large domain")
            v = torch.tensor([float(x) if t.dtype.is_floating_point else int(x) for x in d], dtype=t.dtype)
            na = tree_map(lambda x: v if x is t else x, args)
            nk = tree_map(lambda x: v if x is t else x, kwargs)
            r = _tolist(func(*na, **nk).reshape(-1))
            memo[e.id] = tabf(ir.num(e), {k: ir.norm(q) for k, q in zip(d, r)})
        res.append(memo[e.id])
    mode.cur = func.name()
    mode.write(out, np.array(res + [None], dtype=object)[:-1])
    return out


TABULATED = {"log2", "exp2", "reciprocal", "sqrt", "sigmoid", "tanh", "exp", "log", "rsqrt", "isinf", "isfinite", "nan_to_num", "signbit", "log10", "log1p", "expm1"}


# copies / casts
def _cp_pre(mode, func, b):
    return mode.read(b["self"])


def _cp_post(mode, func, b, p, out):
    return np.array([conform(x, out.dtype) for x in p.ravel()] + [None], dtype=object)[:-1]


OPS["_to_copy"] = Op(_cp_pre, _cp_post)


def _copy_pre(mode, func, b):
    return mode.read(b["src"])


def _copy_post(mode, func, b, p, out):
    p = np.broadcast_to(p, tuple(out.shape)).ravel()
    return np.array([conform(x, out.dtype) for x in p] + [None], dtype=object)[:-1]


OPS["copy"] = Op(_copy_pre, _copy_post)


def _fill_post(mode, func, b, p, out):
    v = p.ravel()[0] if isinstance(p, np.ndarray) else ir.norm(p)
    v = conform(v, out.dtype)
    return np.array([v] * out.numel() + [None], dtype=object)[:-1]


OPS["fill"] = Op(lambda m, f, b: m.read(b["value"]) if isinstance(b["value"], torch.Tensor) else b["value"], _fill_post)
OPS["zero"] = Op(lambda m, f, b: 0, _fill_post)


# reductions
def _dims(b, nd):
    d = b.get("dim", b.get("dims"))
    if d is None or (isinstance(d, (list, tuple)) and len(d) == 0):
        return tuple(range(nd))
    if isinstance(d, int):
        d = [d]
    return tuple(sorted(x % nd for x in d)) if nd else ()


def reduction(names, fn, init=None, multi=False):
    def pre(mode, func, b):
        return mode.read(b["self"])

    def post(mode, func, b, p, out):
        o = out[0] if isinstance(out, (tuple, list)) else out
        ds = _dims(b, p.ndim)
        a = np.transpose(p, [i for i in range(p.ndim) if i not in ds] + list(ds)) if p.ndim else p
        k = int(np.prod([p.shape[i] for i in ds])) if p.ndim else 1
        a = a.reshape(-1, k)
        res = np.array([conform(fn(b, b["self"].dtype if o.dtype == torch.bool else o.dtype, list(row)), o.dtype) for row in a] + [None], dtype=object)[:-1]
        if isinstance(out, (tuple, list)):
            return [res, "idx"]
        return res

    for n in names.split():
        OPS[n] = Op(pre, post)


def _sum(b, dt, xs):
    r = 0
    if all(finite(x) for x in xs):
        r = ir.Sum(xs)
        # every partial sum in any order is representable?
        if dt in PREC:
            g = max([x.g for x in xs if isinstance(x, Node)] + [ir.sc(x)[1] for x in xs if not isinstance(x, (Node, bool)) and x != 0] + [-1000])
            m = sum(max(abs(ir.lo(ir.num(x))), abs(ir.hi(ir.num(x)))) for x in xs)
            if m * Fraction(2) ** g > (1 << PREC[dt]):
                if len(xs) == 2:
                    return t_add(xs[0], xs[1], dt)
                return order_free_sum(xs, dt)
        return r
    if len(xs) <= 2:
        for x in xs:
            r = t_add(r, x, dt)
        return r
    raise Unsupported("float sum")


def order_free_sum(xs, dt):
    raise Unsupported("inexact sum of more than two terms")


reduction("sum", _sum)


def _mean(b, dt, xs):
    return t_div(_sum(b, dt, xs), len(xs), dt)


reduction("mean", _mean)


def _prod(b, dt, xs):
    r = 1
    for x in xs:
        r = t_mul(r, x, dt)
    return r


reduction("prod", _prod)
reduction("any", lambda b, dt, xs: ir.Or(*[tobool(x) for x in xs]))
reduction("all", lambda b, dt, xs: ir.And(*[tobool(x) for x in xs]))
reduction("count_nonzero", lambda b, dt, xs: ir.Sum([ir.num(tobool(x)) for x in xs]))


def _fold(f):
    def g(b, dt, xs):
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


reduction("amax", _fold(t_max))
reduction("amin", _fold(t_min))


def minmax(name, f, cmp):
    """max/min with and without dim; the index output is encoded too (first extremum as torch picks it on ties)"""
    def pre(mode, func, b):
        if func._overloadname.startswith("other") or "other" in b:
            return ("pw", OPS["maximum" if name == "max" else "minimum"].pre(mode, func, b))
        return ("red", mode.read(b["self"]))

    def post(mode, func, b, p, out):
        if p[0] == "pw":
            return OPS["maximum" if name == "max" else "minimum"].post(mode, func, b, p[1], out)
        a = p[1]
        if not isinstance(out, (tuple, list)):
            return np.array([_fold(f)(b, out.dtype, list(a.ravel())), None], dtype=object)[:-1]
        d = b["dim"] % max(a.ndim, 1)
        m = np.moveaxis(a, d, -1) if a.ndim else a
        rows = m.reshape(-1, a.shape[d] if a.ndim else 1)
        vals, idxs = [], []
        for row in rows:
            v, ix = row[0], 0
            for k in range(1, len(row)):
                c = cmp(row[k], v)
                ix = ir.ite(c, k, ix)
                v = f(v, row[k])
            vals.append(v)
            idxs.append(ix)
        return [np.array(vals + [None], dtype=object)[:-1], np.array(idxs + [None], dtype=object)[:-1]]
    OPS[name] = Op(pre, post)


minmax("max", t_max, lambda x, v: t_cmp("lt")(v, x, None))
minmax("min", t_min, lambda x, v: t_cmp("lt")(x, v, None))


def _arg(name, cmp):
    def pre(mode, func, b):
        return mode.read(b["self"])

    def post(mode, func, b, a, out):
        if b["dim"] is None:
            rows = a.reshape(1, -1)
        else:
            m = np.moveaxis(a, b["dim"], -1)
            rows = m.reshape(-1, m.shape[-1])
        res = []
        for row in rows:
            v, ix = row[0], 0
            for k in range(1, len(row)):
                c = cmp(row[k], v)
                ix = ir.ite(c, k, ix)
                v = ir.ite(c, row[k], v)
            res.append(ix)
        return np.array(res + [None], dtype=object)[:-1]
    OPS[name] = Op(pre, post)


_arg("argmax", lambda x, v: t_cmp("lt")(v, x, None))
_arg("argmin", lambda x, v: t_cmp("lt")(x, v, None))


def _cum(name, f):
    def pre(mode, func, b):
        return mode.read(b["self"])

    def post(mode, func, b, a, out):
        d = b["dim"]
        m = np.moveaxis(a, d, -1).copy()
        for p in np.ndindex(*m.shape[:-1]):
            for k in range(1, m.shape[-1]):
                m[p + (k,)] = conform(f(m[p + (k - 1,)], m[p + (k,)], out.dtype), out.dtype)
        if out.dtype != torch.bool:
            for p in np.ndindex(*m.shape):
                m[p] = ir.num(m[p])
        return np.moveaxis(m, -1, d)
    OPS[name] = Op(pre, post)


def _cumext(name, f, beats):
    def post(mode, func, b, a, out):
        m = np.moveaxis(a, b["dim"], -1).copy() if a.ndim else a.reshape(1).copy()
        ix = np.zeros(m.shape, dtype=object)
        for p in np.ndindex(*m.shape[:-1]):
            for k in range(1, m.shape[-1]):
                u, v = m[p + (k - 1,)], m[p + (k,)]
                ix[p + (k,)] = ir.ite(beats(v, u), k, ix[p + (k - 1,)])
                m[p + (k,)] = f(u, v)
        return [np.moveaxis(m, -1, b["dim"]) if a.ndim else m, np.moveaxis(ix, -1, b["dim"]) if a.ndim else ix]
    OPS[name] = Op(lambda mode, func, b: mode.read(b["self"]), post)


_cumext("cummax", t_max, lambda v, u: t_cmp("le")(u, v, None))
_cumext("cummin", t_min, lambda v, u: t_cmp("le")(v, u, None))
_cum("cumsum", t_add)
_cum("cumprod", t_mul)


def _sort_pre(mode, func, b):
    return mode.read(b["self"])


def _sort_post(mode, func, b, a, out):
    """values: insertion of the symbolic ones into the sorted constants; the indices are built
    (stable odd-even transposition network) only if something reads them"""
    d = b.get("dim", -1)
    desc = bool(b.get("descending", False))
    if a.ndim == 0:
        return [a, None]
    m = np.moveaxis(a, d, -1).copy()
    ix = np.empty(m.shape, dtype=object)
    n = m.shape[-1]
    for p in np.ndindex(*m.shape[:-1]):
        row = [ir.num(x) for x in m[p]]
        memo = []
        if any(ir.is_fp(x) or isinstance(x, float) for x in row):
            vals = _sort_net(row, desc)[0]
        else:
            vals = sorted(x for x in row if not isinstance(x, Node))
            for x in (x for x in row if isinstance(x, Node)):
                vals = [t_min(vals[0], x)] + [t_max(u, t_min(v, x)) for u, v in zip(vals, vals[1:])] + [t_max(vals[-1], x)] if vals else [x]
            if desc:
                vals = vals[::-1]
        stable = b.get("stable") or n <= 16

        def force(i, row=row, memo=memo, stable=stable):
            if not stable:
                raise NoFallback("order of equal elements is unspecified")
            if not memo:
                memo.append(_sort_net(row, desc)[1])
            return memo[0][i]
        for i in range(n):
            m[p + (i,)] = vals[i]
            ix[p + (i,)] = Lazy(force, i)
    return [np.moveaxis(m, -1, d), np.moveaxis(ix, -1, d)]


def _sort_net(row, desc):
    n = len(row)
    row, idx = list(row), list(range(n))
    for r in range(n):
        for i in range(r % 2, n - 1, 2):
            x, y = row[i], row[i + 1]
            sw = t_cmp("lt")(x, y, None) if desc else t_cmp("lt")(y, x, None)
            row[i], row[i + 1] = (t_max(x, y), t_min(x, y)) if desc else (t_min(x, y), t_max(x, y))
            idx[i], idx[i + 1] = ir.ite(sw, idx[i + 1], idx[i]), ir.ite(sw, idx[i], idx[i + 1])
    return row, idx


OPS["sort"] = Op(_sort_pre, _sort_post)


def _ranked(which):
    """kthvalue, median, topk: chosen places of the sorted row (their indices are left open)"""
    def post(mode, func, b, a, out):
        o = out if isinstance(out, torch.Tensor) else out[0]
        d = b.get("dim")
        if d is None:
            a, d = a.reshape(-1), -1
        if a.ndim == 0:
            return [a, None]
        n = a.shape[d]
        desc, at = which(b, n)
        v = _sort_post(mode, func, dict(dim=d, descending=desc), a, out)[0]
        v = np.take(v, at, axis=d)
        if not isinstance(at, list) and b.get("keepdim"):
            v = np.expand_dims(v, d)

        def force(i):
            raise NoFallback("place of one of several equal elements is unspecified")
        if isinstance(out, torch.Tensor):
            return np.array([v, None], dtype=object)[:-1] if np.ndim(v) == 0 else v
        ix = np.empty(out[1].shape, dtype=object)
        for p in np.ndindex(*ix.shape):
            ix[p] = Lazy(force, 0)
        return [v if isinstance(v, np.ndarray) else np.array([v, None], dtype=object)[:-1], ix]
    return Op(_sort_pre, post)


OPS["kthvalue"] = _ranked(lambda b, n: (False, b["k"] - 1))
OPS["median"] = _ranked(lambda b, n: (False, (n - 1) // 2))
OPS["topk"] = _ranked(lambda b, n: (bool(b.get("largest", True)), list(range(b["k"]))))


def _search_pre(mode, func, b):
    return mode.read(b["sorted_sequence"]), (mode.read(b["self"]) if isinstance(b["self"], torch.Tensor) else np.array([ir.norm(b["self"])], dtype=object))


def _search_post(mode, func, b, p, out):
    S, V = p
    if b.get("sorter") is not None:
        raise Unsupported("searchsorted with a sorter")
    right = bool(b.get("right")) or b.get("side") == "right"
    res = np.empty(V.size, dtype=object)
    rows = [S] * V.size if S.ndim == 1 else [r for r in S.reshape(-1, S.shape[-1]) for _ in range(V.shape[-1])]
    for i, (r, v) in enumerate(zip(rows, V.ravel())):
        n = 0
        for x in r:
            n = ir.add(n, ir.num(t_cmp("le")(x, v, None) if right else t_cmp("lt")(x, v, None)))
        res[i] = n
    return res


OPS["searchsorted"] = Op(_search_pre, _search_post)


# matrix products
def _dot(xs, ys, dt):
    return _sum(None, dt, [t_mul(x, y, dt) for x, y in zip(xs, ys)])


def _mm(a, b, dt):
    res = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            res[i, j] = conform(_dot(a[i], b[:, j], dt), dt)
    return res


OPS["mm"] = Op(lambda m, f, b: (m.read(b["self"]), m.read(b["mat2"])), lambda m, f, b, p, o: _mm(p[0], p[1], o.dtype))
OPS["bmm"] = Op(lambda m, f, b: (m.read(b["self"]), m.read(b["mat2"])),
                lambda m, f, b, p, o: np.stack([_mm(x, y, o.dtype) for x, y in zip(p[0], p[1])]) if len(p[0]) else p[0])
OPS["mv"] = Op(lambda m, f, b: (m.read(b["self"]), m.read(b["vec"])), lambda m, f, b, p, o: _mm(p[0], p[1].reshape(-1, 1), o.dtype).ravel())
OPS["dot"] = Op(lambda m, f, b: (m.read(b["self"]), m.read(b["tensor"])), lambda m, f, b, p, o: _mm(p[0].reshape(1, -1), p[1].reshape(-1, 1), o.dtype).ravel())


def _addmm_post(m, f, b, p, o):
    if b.get("beta", 1) != 1 or b.get("alpha", 1) != 1:
        raise Unsupported("addmm scaling")
    r = _mm(p[1], p[2], o.dtype)
    c = np.broadcast_to(p[0], r.shape)
    out = np.empty(r.shape, dtype=object)
    for i in np.ndindex(*r.shape):
        out[i] = t_add(r[i], c[i], o.dtype)
    return out


OPS["addmm"] = Op(lambda m, f, b: (m.read(b["self"]), m.read(b["mat1"]), m.read(b["mat2"])), _addmm_post)


def _baddbmm_post(m, f, b, p, o):
    if b.get("beta", 1) != 1 or b.get("alpha", 1) != 1:
        raise Unsupported("baddbmm scaling")
    r = np.stack([_mm(x, y, o.dtype) for x, y in zip(p[1], p[2])])
    c = np.broadcast_to(p[0], r.shape)
    out = np.empty(r.shape, dtype=object)
    for i in np.ndindex(*r.shape):
        out[i] = t_add(r[i], c[i], o.dtype)
    return out


OPS["addbmm"] = Op(lambda m, f, b: (m.read(b["self"]), m.read(b["batch1"]), m.read(b["batch2"])),
                   lambda m, f, b, p, o: _addmm_post(m, f, b, (p[0], np.concatenate(list(p[1]), 1), np.concatenate(list(p[2]), 0)), o))
OPS["baddbmm"] = Op(lambda m, f, b: (m.read(b["self"]), m.read(b["batch1"]), m.read(b["batch2"])), _baddbmm_post)


# col2im: scatter-add of columns
def _col2im_post(mode, func, b, a, out):
    x = b["self"]
    n = x.numel()
    ids = torch.arange(n, dtype=torch.float64)
    args = (b["output_size"], b["kernel_size"], b["dilation"], b["padding"], b["stride"])
    acc = [[] for _ in range(out.numel())]
    flat = a.ravel()
    eye = torch.zeros(x.shape, dtype=torch.float64)
    ef = eye.reshape(-1)
    for i in range(n):
        ef[i] = 1
        r = aten.col2im(eye, *args).reshape(-1)
        for j in _tolist(torch.nonzero(r).reshape(-1)):
            acc[j].append(flat[i])
        ef[i] = 0
    return np.array([_sum(None, out.dtype, q) if q else 0 for q in acc] + [None], dtype=object)[:-1]


OPS["col2im"] = Op(lambda m, f, b: m.read(b["self"]), _col2im_post)


def _conv_post(mode, func, b, p, out):
    x, w, bias = p
    nd = x.ndim - 2
    if b.get("transposed") or w.ndim != x.ndim:
        raise Unsupported("convolution")
    ext = lambda v: [int(k) for k in (v if len(v) == nd else list(v) * nd)]
    st, pd, dl, g = ext(b["stride"]), ext(b["padding"]), ext(b["dilation"]), int(b.get("groups", 1))
    N, co = x.shape[0], w.shape[0]
    ci, cg = w.shape[1], co // g
    res = np.empty(tuple(out.shape), dtype=object)
    for q in np.ndindex(*out.shape[2:]):
        tap = []
        for k in np.ndindex(*w.shape[2:]):
            at = tuple(q[d] * st[d] - pd[d] + k[d] * dl[d] for d in range(nd))
            if all(0 <= at[d] < x.shape[2 + d] for d in range(nd)):
                tap.append((k, at))
        for n in range(N):
            for o in range(co):
                c0 = o // cg * ci
                v = _dot([x[(n, c0 + c) + at] for c in range(ci) for _, at in tap], [w[(o, c) + k] for c in range(ci) for k, _ in tap], out.dtype) if tap else 0
                res[(n, o) + q] = conform(v if bias is None else t_add(v, bias[o], out.dtype), out.dtype)
    return res


OPS["convolution"] = Op(lambda m, f, b: (m.read(b["input"]), m.read(b["weight"]), None if b.get("bias") is None else m.read(b["bias"])), _conv_post)
LINEAR = {"avg_pool2d"}


def linear(mode, func, b, args, kwargs, tens):
    """convolution and other multilinear maps through unfold-free one-hot probing (one symbolic operand)"""
    symt = [t for t in tens if mode.has(t)]
    if len(symt) != 1:
        raise Unsupported(func.name())
    t = symt[0]
    arr = mode.read(t).ravel()
    out = func(*args, **kwargs)
    z = torch.zeros(t.shape, dtype=torch.float64)

    def call(v):
        f = lambda x: (v if x is t else x.double() if isinstance(x, torch.Tensor) and x.dtype.is_floating_point else x)
        return func(*tree_map(f, args), **tree_map(f, kwargs)).reshape(-1)
    base = _tolist(call(z))
    cols = []
    zf = z.reshape(-1)
    for i in range(len(arr)):
        zf[i] = 1
        cols.append(_tolist(call(z) - call(torch.zeros_like(z))))
        zf[i] = 0
    res = []
    for j in range(len(base)):
        res.append(_sum(None, out.dtype, [t_mul(arr[i], ir.norm(cols[i][j]), out.dtype) for i in range(len(arr)) if cols[i][j] != 0] + [ir.norm(base[j])]))
    mode.cur = func.name()
    mode.write(out, np.array([conform(r, out.dtype) for r in res] + [None], dtype=object)[:-1])
    return out


# data dependent shapes: fix the mask on this path
def _conc_pre(name):
    def pre(mode, func, b):
        for k in (name,):
            for n in mode.read(b[k]).ravel():
                mode.concretize(tobool(n))
        return mode.read(b["self"])
    return pre


OPS["nonzero"] = Op(_conc_pre("self"), lambda m, f, b, p, o: None)


def _msel_post(mode, func, b, a, out):
    m = np.broadcast_to(np.array(_tolist(b["mask"]), dtype=object), a.shape).ravel()
    return np.array([x for x, c in zip(a.ravel(), m) if c] + [None], dtype=object)[:-1]


OPS["masked_select"] = Op(_conc_pre("mask"), _msel_post)


def _mscat_pre(mode, func, b):
    for n in mode.read(b["mask"]).ravel():
        mode.concretize(tobool(n))
    return mode.read(b["self"]), mode.read(b["source"]), b["mask"].clone()


def _mscat_post(mode, func, b, p, out):
    S, V, mask = p
    shape = tuple(out.shape)
    m = np.broadcast_to(np.array(_tolist(mask), dtype=object), shape).ravel()
    src = iter(V.ravel())
    return np.array([next(src) if c else x for x, c in zip(np.broadcast_to(S, shape).ravel(), m)] + [None], dtype=object)[:-1]


OPS["masked_scatter"] = Op(_mscat_pre, _mscat_post)


def _iput_pre(mode, func, b):
    idx = b["indices"]
    S, V = mode.read(b["self"]), mode.read(b["values"])
    I = [None if i is None else mode.read(i) for i in idx]
    return S, V, I, [None if i is None else i.clone() for i in idx]


def _iput_post(mode, func, b, p, out):
    S, V, I, idx = p
    S = S.copy()
    dt = out.dtype
    accum = bool(b.get("accumulate", False))
    if len(I) == 1 and idx[0] is not None and idx[0].dtype == torch.bool:
        M = I[0]
        if V.size == 1:
            M = np.broadcast_to(M.reshape(M.shape + (1,) * (S.ndim - M.ndim)), S.shape)
            v = conform(V.ravel()[0], dt)
            for q in np.ndindex(*S.shape):
                S[q] = ir.ite(tobool(M[q]), t_add(S[q], v, dt) if accum else v, S[q])
            return S
        for n in M.ravel():
            mode.concretize(tobool(n))
        ids = torch.arange(S.size).reshape(S.shape)[idx[0]]
    else:
        symi = any(isinstance(n, Node) for i in I if i is not None for n in i.ravel())
        if symi:
            if len(I) == 1 and S.ndim >= 1 and I[0].size == 1 and not accum:
                k = checked_index(mode, I[0].ravel()[0], S.shape[0])
                Vb = np.broadcast_to(V, (1,) * 0 + S.shape[1:]) if V.ndim <= S.ndim - 1 else V.reshape(S.shape[1:])
                for q in np.ndindex(*S.shape):
                    S[q] = ir.ite(ir.eq(k, q[0]), conform(Vb[q[1:]], dt), S[q])
                return S
            for i in I:
                if i is not None:
                    for n in i.ravel():
                        mode.concretize(n)
        ids = torch.arange(S.size).reshape(S.shape)
        ids = aten.index(ids, [i for i in idx])
    flat = S.reshape(-1)
    Vb = np.broadcast_to(V, tuple(ids.shape)).ravel()
    for k, v in zip(_tolist(ids.reshape(-1)), Vb):
        v = conform(v, dt)
        flat[k] = t_add(flat[k], v, dt) if accum else v
    return flat.reshape(S.shape)


OPS["scatter"] = Op(_scatter_pre, _scatter(False))
OPS["scatter_add"] = Op(_scatter_pre, _scatter(True))
OPS["index_put"] = Op(_iput_pre, _iput_post)
OPS["_index_put_impl"] = OPS["index_put"]


def _frexp_post(mode, func, b, a, out):
    man, exp = out
    M, E = [], []
    for e in a.ravel():
        if not isinstance(e, Node):
            m, x = math.frexp(float(e))
            M.append(ir.norm(m)); E.append(x)
            continue
        d = ir.dom(e)
        if d is None:
            raise Unsupported("frexp over a large domain")
        fr = {k: math.frexp(float(k)) for k in d}
        M.append(ir.tab(e, {k: ir.norm(v[0]) for k, v in fr.items()}))
        E.append(ir.tab(e, {k: v[1] for k, v in fr.items()}))
    return [np.array(M + [None], dtype=object)[:-1], np.array(E + [None], dtype=object)[:-1]]


OPS["frexp"] = Op(lambda m, f, b: m.read(b["self"]), _frexp_post)
