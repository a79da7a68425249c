"""Front end and symbolic evaluator for the SystemVerilog in /repo/hw.

Source text -> preprocessor -> AST -> elaborated instance tree -> cycle-based evaluation on DAG nodes (symtorch.ir), so that the inputs,
the unknown values (undriven nets, registers without a reset) and the state may all be symbolic. The same evaluator runs on plain
integers for the replay of a counterexample.

Expression sizes and signs follow IEEE 1800 11.6-11.8. Values are unsigned patterns; '+', '-', '*' are kept unwrapped until an
operator looks at the bits (arithmetic modulo 2^n commutes with truncation).
Two-valued logic: every value that is 'x' in simulation (no driver, not reset, select out of range, missing branch) is an arbitrary value.
"""
import os
import re
from symtorch import ir


class SVError(Exception):
    """the source is not legal or is outside the supported subset"""


class SVIllegal(SVError):
    """no tool accepts the source"""


SEEN = set()           # modules elaborated, for the evidence


# ---------------------------------------------------------------------------------------------------------------- preprocessor
_TOK = re.compile(r'''
    (?P<ws>\s+)
  | (?P<num>(?:\d[\d_]*)?\s*'\s*[sS]?[bBoOdDhH]\s*[0-9a-fA-FxXzZ?_]+|'[01xXzZ](?![0-9a-fA-F])|\d[\d_]*(?:\.\d+)?(?:ns|ps|us|ms)?)
  | (?P<str>"[^"\n]*")
  | (?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
  | (?P<op><<<=|>>>=|<<<|>>>|===|!==|==\?|!=\?|<<=|>>=|\*\*|&&|\|\||==|!=|<=|>=|<<|>>|~&|~\||~\^|\^~|\+:|-:|\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\^=|::|->|[-+*/%&|^~!<>=?:;,.(){}\[\]\#@'])
''', re.X)


def strip_comments(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: "\n" * m.group(0).count("\n") + " ", s, flags=re.S)


class Pre:
    """macros and conditional compilation; `include`d files are read from the including file's directory"""
    def __init__(self, defines=None):
        self.macros = dict(defines or {})
        self.files = []

    def file(self, path):
        path = os.path.normpath(path)
        if path not in self.files:
            self.files.append(path)
        if not os.path.isfile(path):
            raise SVError(f"`include: no file {os.path.basename(path)}")
        src = strip_comments(open(path, errors="replace").read().replace("\r", ""))
        # a script's comment line behind the last module is not code
        end = max(src.rfind("endmodule"), src.rfind("`endif"))
        if end >= 0:
            src = src[:end] + re.sub(r"(?m)^\s*#.*$", "", src[end:])
        return self.text(src, os.path.dirname(path))

    def text(self, s, here):
        out, stack = [], []            # stack of [taking now, any branch taken, parent taking]
        for ln in s.split("\n"):
            st = ln.strip()
            on = all(x[0] for x in stack)
            m = re.match(r'`(\w+)\s*(.*)$', st)
            k = m.group(1) if m else None
            if k in ("ifdef", "ifndef"):
                c = (m.group(2).split()[0] in self.macros) == (k == "ifdef")
                stack.append([c, c])
            elif k == "elsif":
                c = (not stack[-1][1]) and m.group(2).split()[0] in self.macros
                stack[-1] = [c, stack[-1][1] or c]
            elif k == "else":
                stack[-1] = [not stack[-1][1], True]
            elif k == "endif":
                if not stack:
                    raise SVError("`endif without `ifdef")
                stack.pop()
            elif not on:
                pass
            elif k == "define":
                mm = re.match(r'(\w+)(\([^)]*\))?\s*(.*)$', m.group(2))
                if mm.group(2):
                    raise SVError("macro with arguments")
                self.macros[mm.group(1)] = mm.group(3).strip()
            elif k == "undef":
                self.macros.pop(m.group(2).strip(), None)
            elif k == "include":
                out.append(self.file(os.path.join(here, m.group(2).strip().strip('"<>'))))
            elif k in ("timescale", "default_nettype", "resetall", "celldefine", "endcelldefine"):
                pass
            else:
                out.append(self.expand(ln))
        if stack:
            raise SVError("`ifdef without `endif")
        return "\n".join(out)

    def expand(self, ln, depth=0):
        if "`" not in ln:
            return ln
        if depth > 30:
            raise SVError("recursive macro")

        def f(m):
            if m.group(1) not in self.macros:
                raise SVError(f"undefined macro `{m.group(1)}")
            return str(self.macros[m.group(1)])
        return self.expand(re.sub(r'`(\w+)', f, ln), depth + 1)


def lex(s):
    out, i, line = [], 0, 1
    while i < len(s):
        m = _TOK.match(s, i)
        if not m:
            raise SVError(f"unexpected character {s[i]!r}")
        i = m.end()
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group(0), line))
        line += m.group(0).count("\n")
    out.append(("eof", "", line))
    return out


# ---------------------------------------------------------------------------------------------------------------- parser
KW = set("module endmodule input output inout logic wire reg bit integer int genvar parameter localparam assign always always_ff always_comb always_latch begin end if else case casez casex "
         "endcase default for generate endgenerate posedge negedge or signed unsigned initial function endfunction unique priority automatic return var byte shortint longint while".split())
BIN = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!==", "==?", "!=?"], ["<", "<=", ">", ">="], ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"], ["**"]]
LV = {o: i for i, os_ in enumerate(BIN) for o in os_}


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    # ---- tokens
    def pk(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)][1]

    def kind(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)][0]

    def nx(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def acc(self, *xs):
        if self.pk() in xs and self.kind() != "str":
            return self.nx()
        return None

    def ex(self, x):
        if self.pk() != x:
            raise SVError(f"syntax error: '{x}' expected before '{self.pk()}'")
        return self.nx()

    def ident(self):
        if self.kind() != "id" or self.pk() in KW:
            raise SVError(f"syntax error: identifier expected before '{self.pk()}'")
        return self.nx()

    # ---- source
    def source(self):
        mods, glob = {}, []
        while self.kind() != "eof":
            if self.pk() in ("module",):
                m = self.module()
                if m["name"] in mods and repr(mods[m["name"]]) != repr(m):
                    raise SVError(f"module {m['name']} defined twice, differently")
                mods[m["name"]] = m
            elif self.pk() in ("parameter", "localparam"):
                glob += self.params(True)
            elif not self.acc(";"):
                raise SVError(f"syntax error: module expected before '{self.pk()}'")
        return mods, glob

    def params(self, semi):
        """parameter a = 1, b = 2 ...; in a header, each may repeat the keyword"""
        out = []
        local = False
        first = True
        while True:
            k = self.acc("parameter", "localparam")
            if k:
                local = k == "localparam"
            elif first and semi:
                raise SVError("syntax error in parameter")
            first = False
            self.acc("int", "integer", "logic", "bit")
            sg = self.acc("signed", "unsigned")
            dims = self.dims()
            n = self.ident()
            self.ex("=")
            out.append((n, self.expr(), local, dims, sg))
            if self.pk() in ("parameter", "localparam") and not semi:
                raise SVIllegal(f"',' missing before {' '.join(self.pk(i) for i in range(2))}")
            if not self.acc(","):
                break
        if semi:
            self.ex(";")
        return out

    def dims(self):
        d = []
        while self.pk() == "[":
            self.nx()
            a = self.expr()
            if self.acc(":"):
                d.append((a, self.expr()))
            else:
                d.append((None, a))
            self.ex("]")
        return d

    def module(self):
        self.ex("module")
        self.acc("automatic")
        m = {"name": self.ident(), "params": [], "ports": [], "items": []}
        if self.acc("#"):
            self.ex("(")
            if self.pk() != ")":
                m["params"] = self.params(False)
            self.ex(")")
        if self.acc("("):
            cur = None
            while self.pk() != ")":
                d = self.acc("input", "output", "inout")
                if d:
                    self.acc("logic", "wire", "reg", "bit", "var")
                    sg = bool(self.acc("signed"))
                    self.acc("unsigned")
                    cur = (d, sg, self.dims())
                elif cur is None:
                    # non-ANSI header
                    cur = ("?", False, [])
                elif self.pk() in ("logic", "wire", "reg", "bit") or self.pk() == "[":
                    self.acc("logic", "wire", "reg", "bit")
                    sg = bool(self.acc("signed"))
                    cur = (cur[0], sg, self.dims())
                n = self.ident()
                m["ports"].append([n, cur[0], cur[1], cur[2], self.dims()])
                if not self.acc(","):
                    break
            self.ex(")")
        self.ex(";")
        m["items"] = self.items("endmodule")
        self.ex("endmodule")
        if self.acc(":"):
            self.ident()
        return m

    def items(self, *ends):
        out = []
        while self.pk() not in ends:
            if self.kind() == "eof":
                raise SVError(f"syntax error: {ends[0]} missing")
            out += self.item()
        return out

    def item(self):
        k = self.pk()
        if self.acc(";"):
            return []
        if k in ("parameter", "localparam"):
            return [("param", *p) for p in self.params(True)]
        if k in ("input", "output", "inout"):
            d = self.nx()
            self.acc("logic", "wire", "reg", "bit")
            sg = bool(self.acc("signed"))
            dm = self.dims()
            out = []
            while True:
                out.append(("port", self.ident(), d, sg, dm, self.dims()))
                if not self.acc(","):
                    break
            self.ex(";")
            return out
        if k in ("logic", "wire", "reg", "bit", "integer", "int", "byte", "shortint", "longint", "genvar", "var"):
            self.nx()
            if k == "var":
                self.acc("logic", "bit", "int")
            sg = {"integer": True, "int": True, "byte": True, "shortint": True, "longint": True}.get(k, False)
            s = self.acc("signed", "unsigned")
            if s:
                sg = s == "signed"
            w = {"integer": 32, "int": 32, "byte": 8, "shortint": 16, "longint": 64}.get(k)
            dm = self.dims()
            out = []
            while True:
                n = self.ident()
                ud = self.dims()
                init = self.expr() if self.acc("=") else None
                out.append(("genvar", n) if k == "genvar" else ("decl", n, sg, dm, ud, w, init, k))
                if not self.acc(","):
                    break
            self.ex(";")
            return out
        if self.acc("assign"):
            out = []
            while True:
                l = self.lval()
                self.ex("=")
                out.append(("assign", l, self.expr()))
                if not self.acc(","):
                    break
            self.ex(";")
            return out
        if k in ("always_comb", "always_latch"):
            self.nx()
            return [("comb", self.stmt())]
        if k in ("always_ff", "always"):
            self.nx()
            ev = []
            if self.acc("@"):
                if self.acc("*"):
                    return [("comb", self.stmt())]
                self.ex("(")
                if self.acc("*"):
                    self.ex(")")
                    return [("comb", self.stmt())]
                while True:
                    e = self.acc("posedge", "negedge")
                    ev.append((e, self.expr(3)))
                    if not self.acc("or", ","):
                        break
                self.ex(")")
            else:
                raise SVError("always without event control")
            if all(e is None for e, _ in ev):
                return [("comb", self.stmt())]
            if any(e is None for e, _ in ev):
                raise SVError("mixed edge and level sensitivity")
            return [("ff", ev, self.stmt())]
        if k == "initial":
            raise SVError("initial block")
        if self.acc("generate"):
            out = self.items("endgenerate")
            self.ex("endgenerate")
            return out
        if k == "for":
            self.nx()
            self.ex("(")
            self.acc("genvar", "int", "integer")
            v = self.ident()
            self.ex("=")
            a = self.expr()
            self.ex(";")
            c = self.expr()
            self.ex(";")
            stp = self.fstep()
            self.ex(")")
            return [("gfor", v, a, c, stp, self.gblock())]
        if k == "if":
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            a = self.gblock()
            b = self.gblock() if self.acc("else") else []
            return [("gif", c, a, b)]
        if k == "begin":
            return [("gblk", self.gblock())]
        if k == "function":
            self.nx()
            self.acc("automatic")
            self.acc("logic", "reg", "bit", "int", "integer")
            sg = bool(self.acc("signed"))
            dm = self.dims()
            n = self.ident()
            args = []
            if self.acc("("):
                cur = (False, [])
                while self.pk() != ")":
                    if self.acc("input"):
                        pass
                    if self.pk() in ("logic", "reg", "bit", "int", "integer", "signed", "["):
                        t = self.acc("logic", "reg", "bit", "int", "integer")
                        s_ = bool(self.acc("signed")) or t in ("int", "integer")
                        d_ = self.dims()
                        cur = (s_, d_ if t not in ("int", "integer") else [(("num", 31, 32, True), ("num", 0, 32, True))])
                    args.append((self.ident(), *cur))
                    if not self.acc(","):
                        break
                self.ex(")")
            self.ex(";")
            body = []
            while self.pk() != "endfunction":
                if self.pk() in ("input", "logic", "reg", "integer", "int", "bit"):
                    for it in self.item():
                        if it[0] == "port":
                            args.append((it[1], it[3], it[4]))
                        else:
                            body.append(("vdecl", it))
                else:
                    body.append(self.stmt())
            self.ex("endfunction")
            if self.acc(":"):
                self.ident()
            return [("func", n, sg, dm, args, ("blk", body))]
        if self.kind() == "id" and k not in KW and not k.startswith("$"):
            mod = self.nx()
            par, ordered = [], False
            if self.acc("#"):
                self.ex("(")
                par = self.conns()
                self.ex(")")
            out = []
            while True:
                n = self.ident()
                if self.dims():
                    raise SVError("array of instances")
                self.ex("(")
                c = self.conns()
                self.ex(")")
                out.append(("inst", mod, par, n, c))
                if not self.acc(","):
                    break
            self.ex(";")
            return out
        raise SVError(f"syntax error before '{k}'")

    def gblock(self):
        if self.acc("begin"):
            if self.acc(":"):
                self.ident()
            out = self.items("end")
            self.ex("end")
            if self.acc(":"):
                self.ident()
            return out
        return self.item()

    def conns(self):
        out = []
        while self.pk() != ")":
            if self.acc("."):
                if self.acc("*"):
                    out.append(("*", None))
                else:
                    n = self.ident()
                    if self.acc("("):
                        e = None if self.pk() == ")" else self.expr()
                        self.ex(")")
                    else:
                        e = ("id", n)
                    out.append((n, e))
            else:
                out.append((None, self.expr()))
            if not self.acc(","):
                break
        return out

    def fstep(self):
        v = self.ident()
        if self.acc("++"):
            return (v, ("bin", "+", ("id", v), ("num", 1, 32, True)))
        if self.acc("--"):
            return (v, ("bin", "-", ("id", v), ("num", 1, 32, True)))
        o = self.nx()
        if o == "=":
            return (v, self.expr())
        if o in ("+=", "-=", "*=", "/="):
            return (v, ("bin", o[:-1], ("id", v), self.expr()))
        raise SVError("loop step")

    # ---- statements
    def stmt(self):
        self.acc("unique", "priority")
        k = self.pk()
        if self.acc(";"):
            return ("blk", [])
        if self.acc("begin"):
            if self.acc(":"):
                self.ident()
            out = []
            while self.pk() != "end":
                if self.kind() == "eof":
                    raise SVError("syntax error: end missing")
                if self.pk() in ("logic", "reg", "bit", "int", "integer", "automatic"):
                    self.acc("automatic")
                    out += [("vdecl", it) for it in self.item()]
                else:
                    out.append(self.stmt())
            self.nx()
            if self.acc(":"):
                self.ident()
            return ("blk", out)
        if self.acc("if"):
            self.ex("(")
            c = self.expr()
            self.ex(")")
            a = self.stmt()
            b = self.stmt() if self.acc("else") else None
            return ("if", c, a, b)
        if k in ("case", "casez", "casex"):
            self.nx()
            self.ex("(")
            e = self.expr()
            self.ex(")")
            br, df = [], None
            while self.pk() != "endcase":
                if self.acc("default"):
                    self.acc(":")
                    df = self.stmt()
                else:
                    ls = [self.expr()]
                    while self.acc(","):
                        ls.append(self.expr())
                    self.ex(":")
                    br.append((ls, self.stmt()))
            self.nx()
            return ("case", e, br, df, k)
        if self.acc("for"):
            self.ex("(")
            self.acc("int", "integer", "genvar")
            v = self.ident()
            self.ex("=")
            a = self.expr()
            self.ex(";")
            c = self.expr()
            self.ex(";")
            s = self.fstep()
            self.ex(")")
            return ("for", v, a, c, s, self.stmt())
        if self.acc("return"):
            e = self.expr()
            self.ex(";")
            return ("ret", e)
        if k.startswith("$"):
            raise SVError(f"system task {k}")
        l = self.lval()
        o = self.nx()
        if o in ("<=", "="):
            if self.pk() == "#":
                raise SVError("delay")
            s = ("nb" if o == "<=" else "ba", l, self.expr())
        elif o in ("++", "--"):
            s = ("ba", l, ("bin", o[0], l, ("num", 1, 32, True)))
        elif o.endswith("=") and o[:-1] in LV:
            s = ("ba", l, ("bin", o[:-1], l, self.expr()))
        else:
            raise SVError(f"syntax error before '{o}'")
        self.ex(";")
        return s

    def lval(self):
        if self.acc("{"):
            xs = [self.lval()]
            while self.acc(","):
                xs.append(self.lval())
            self.ex("}")
            return ("cat", xs)
        return self.postfix(("id", self.ident()))

    # ---- expressions
    def expr(self, minlv=0):
        e = self.binary(0)
        if self.acc("?"):
            a = self.expr()
            self.ex(":")
            b = self.expr()
            return ("tern", e, a, b)
        return e

    def binary(self, lv):
        if lv == len(BIN):
            return self.unary()
        e = self.binary(lv + 1)
        while self.pk() in BIN[lv] and self.kind() == "op":
            o = self.nx()
            e = ("bin", o, e, self.binary(lv + 1))
        return e

    def unary(self):
        o = self.acc("~", "!", "-", "+", "&", "|", "^", "~&", "~|", "~^", "^~")
        if o:
            return ("un", o, self.unary())
        return self.postfix(self.primary())

    def primary(self):
        if self.acc("("):
            e = self.expr()
            self.ex(")")
            e = ("par", e)
        elif self.pk() == "{" and self.kind() == "op":
            self.nx()
            e = self.expr()
            if self.pk() == "{":
                self.nx()
                xs = [self.expr()]
                while self.acc(","):
                    xs.append(self.expr())
                self.ex("}")
                self.ex("}")
                e = ("rep", e, ("cat", xs))
            else:
                xs = [e]
                while self.acc(","):
                    xs.append(self.expr())
                self.ex("}")
                e = ("cat", xs)
        elif self.kind() == "num":
            e = number(self.nx())
        elif self.kind() == "id":
            n = self.nx()
            if n in ("signed", "unsigned") or n not in KW or n in ("int",):
                if self.pk() == "(":
                    self.nx()
                    args = []
                    while self.pk() != ")":
                        args.append(self.expr())
                        if not self.acc(","):
                            break
                    self.ex(")")
                    e = ("call", n, args)
                else:
                    e = ("id", n)
            else:
                raise SVError(f"syntax error before '{n}'")
        else:
            raise SVError(f"syntax error before '{self.pk()}'")
        if self.pk() == "'" and self.pk(1) == "(":
            self.nx()
            self.nx()
            x = self.expr()
            self.ex(")")
            return ("cast", e, x)
        return e

    def postfix(self, e):
        while self.pk() == "[" and self.kind() == "op":
            self.nx()
            a = self.expr()
            if self.acc(":"):
                e = ("part", e, a, self.expr())
            elif self.acc("+:"):
                e = ("ipart", e, a, self.expr(), 1)
            elif self.acc("-:"):
                e = ("ipart", e, a, self.expr(), -1)
            else:
                e = ("sel", e, a)
            self.ex("]")
        return e


def number(s):
    s = re.sub(r'[\s_]', '', s)
    if "'" not in s:
        return ("num", int(s), 32, True)
    w, r = s.split("'")
    if r[0] in "01xXzZ" and len(r) == 1:
        if r not in "01":
            raise SVError("x/z literal")
        return ("fill", int(r))
    sg = r[0] in "sS"
    if sg:
        r = r[1:]
    base = {"b": 2, "o": 8, "d": 10, "h": 16}[r[0].lower()]
    d = r[1:]
    if re.search(r'[xXzZ?]', d):
        if base != 2:
            raise SVError("x/z literal")
        return ("pat", d, int(w) if w else 32)
    v = int(d, base)
    w_ = int(w) if w else 32
    return ("num", v % 2 ** w_, w_, sg)


_cache = {}


def parse(path, defines=None, override=None):
    """(modules, globals, files); a macro of `override` wins over the source's own `define`"""
    p = Pre(defines)
    if override is not None:
        o = override

        class P2(Pre):
            pass
        p.__class__ = P2
        base = Pre.text

        def text(self, s, here):
            return base(self, o(s), here)
        P2.text = text
    src = p.file(path)
    mods, glob = Parser(lex(src)).source()
    return mods, glob, p.files


# ---------------------------------------------------------------------------------------------------------------- elaboration
class Sig:
    __slots__ = ("name", "dims", "udims", "signed", "width", "elem", "drv", "reg", "port", "init", "count")

    def __init__(self, name, signed, dims, udims):
        self.name, self.signed, self.dims, self.udims = name, signed, dims, udims      # lists of (left, right) ints
        self.width = 1
        for a, b in dims:
            self.width *= abs(a - b) + 1
        self.elem = self.width
        if dims:
            self.elem = self.width // (abs(dims[0][0] - dims[0][1]) + 1)
        self.count = 1
        for a, b in udims:
            self.count *= abs(a - b) + 1
        self.drv, self.reg, self.port = [], None, None


def off(dim, i):
    """position of index i in a dimension, from its right (least significant) end; None if outside"""
    a, b = dim
    p = i - b if a >= b else b - i
    return p if 0 <= p <= abs(a - b) else None


class Inst:
    def __init__(self, d, mods, glob, mod, par, path, parent):
        self.d, self.path, self.parent, self.name = d, path, parent, mod["name"]
        self.sigs, self.par, self.kids, self.conn, self.funcs = {}, {}, {}, {}, {}
        self.procs, self.implicit = [], set()
        for g in glob:
            self.par[g[0]] = self.pval(g[1], g[3], g[4])
        seen = set()
        self.ppar = par
        for n, e, local, dims, sg in mod["params"]:
            self.par[n] = par[n] if n in par and not local else self.pval(e, dims, sg)
            seen.add(n)
        self.known = seen
        ports = {p[0]: p for p in mod["ports"]}
        self.order = [p[0] for p in mod["ports"]]
        for n, dr, sg, dm, ud in mod["ports"]:
            if dr != "?":
                self.addsig(n, sg, dm, ud, dr)
        self.block(mod["items"], mods, glob, {})
        for n in par:
            if n not in self.known:
                raise SVError(f"{self.name} has no parameter {n}")

    def pval(self, e, dims, sg):
        v = self.const(e)
        if dims:
            s = self.rng(dims)
            w = 1
            for a, b in s:
                w *= abs(a - b) + 1
            v %= 2 ** w
        return v

    def addsig(self, n, sg, dm, ud, port, g={}):
        s = Sig(n, sg, self.rng(dm, g), self.rng(ud, g, True))
        s.port = port
        if n in self.implicit:
            raise SVError(f"{n} is used before its declaration")
        self.sigs[n] = s
        return s

    def rng(self, dm, g={}, unp=False):
        out = []
        for a, b in dm:
            if a is None:
                n = self.const(b, g)
                out.append((0, n - 1))
            else:
                out.append((self.const(a, g), self.const(b, g)))
        return out

    def const(self, e, g={}):
        v = Ev(self, None, g, const=True).value(e)
        if isinstance(v, ir.Node):
            raise SVError("constant expected")
        return v

    def block(self, items, mods, glob, g):
        for it in items:
            k = it[0]
            if k == "param":
                _, n, e, local, dims, sg = it
                self.par[n] = self.ppar[n] if n in self.ppar and not local else self.pval(e, dims, sg)
                self.known.add(n)
            elif k == "port":
                _, n, d, sg, dm, ud = it
                self.addsig(n, sg, dm, ud, d)
            elif k == "decl":
                _, n, sg, dm, ud, w, init, kind = it
                if w:
                    dm = [(("num", w - 1, 32, True), ("num", 0, 32, True))]
                if n in self.sigs and self.sigs[n].port is not None:
                    if not self.sigs[n].dims and dm:
                        # the header gives the direction only; the body gives the range
                        self.addsig(n, sg or self.sigs[n].signed, dm, ud, self.sigs[n].port)
                    continue
                if n in self.sigs and not g:
                    raise SVError(f"{n} declared twice")
                nm = n if not g else n + repr(sorted(g.items()))
                s = self.addsig(nm, sg, dm, ud, None, g)
                if g:
                    g = dict(g)
                    g[n] = ("alias", nm)
                if init is not None:
                    if kind != "wire":
                        raise SVError("variable with initial value")
                    self.drive(("assign", ("id", n), init), g)
            elif k == "genvar":
                pass
            elif k == "assign":
                self.drive(it, g)
            elif k in ("comb", "ff"):
                self.procs.append((k, it, g))
            elif k == "func":
                self.funcs[it[1]] = it
            elif k == "gfor":
                _, v, a, c, (sv, se), body = it
                gg = dict(g)
                gg[v] = self.const(a, g)
                n = 0
                while self.const(c, gg):
                    self.block(body, mods, glob, dict(gg))
                    gg[v] = self.const(se, gg)
                    n += 1
                    if n > 4096:
                        raise SVError("generate loop does not end")
            elif k == "gif":
                self.block(it[2] if self.const(it[1], g) else it[3], mods, glob, g)
            elif k == "gblk":
                self.block(it[1], mods, glob, g)
            elif k == "inst":
                _, mn, par, n, conns = it
                if mn not in mods:
                    raise SVIllegal(f"module {mn} is not defined")
                m = mods[mn]
                pn = [p[0] for p in m["params"]] + [i[1] for i in m["items"] if i[0] == "param"]
                pv = {}
                for j, (a, e) in enumerate(par):
                    if a is None and j >= len(pn):
                        raise SVError(f"too many parameters for {mn}")
                    pv[a or pn[j]] = self.const(e, g)
                kid = Inst(self.d, mods, glob, m, pv, self.path + (n + (repr(sorted(g.items())) if g else ""),), self)
                self.kids[kid.path[-1]] = kid
                used = {}
                for j, (a, e) in enumerate(conns):
                    if a == "*":
                        for p in kid.order:
                            used.setdefault(p, ("id", p))
                    elif a is None:
                        if j >= len(kid.order):
                            raise SVError(f"too many ports for {mn}")
                        used[kid.order[j]] = e
                    else:
                        used[a] = e
                for p, e in used.items():
                    if p not in kid.sigs or kid.sigs[p].port is None:
                        raise SVError(f"{mn} has no port {p}")
                    if e is None:
                        continue
                    if kid.sigs[p].port == "input":
                        kid.conn[p] = (e, g)
                    elif e[0] == "id" and e[1] not in self.sigs and e[1] not in g:
                        # an implicit net; nobody can read it (a use of it is an error below)
                        self.implicit.add(e[1])
                    else:
                        self.target(e, ("out", kid, p), g)
            else:
                raise SVError(k)

    def drive(self, it, g):
        self.target(it[1], ("expr", it[2], g), g, it[2])

    def ref(self, e, g):
        """(signal, unpacked element, low bit, width) of an lvalue with constant selects"""
        base, sels = e, []
        while base[0] in ("sel", "part", "ipart"):
            sels.append(base)
            base = base[1]
        if base[0] != "id":
            raise SVError("lvalue")
        n = base[1]
        if n in g and isinstance(g[n], tuple):
            n = g[n][1]
        if n not in self.sigs:
            raise SVError(f"{n} is not declared")
        s = self.sigs[n]
        return s, sels[::-1]

    def target(self, e, src, g, rhs=None):
        if e[0] == "cat":
            lo = 0
            tot = 0
            parts = []
            for x in reversed(e[1]):
                s, el, l, w = self.place(x, g)
                parts.append((s, el, l, w, tot))
                tot += w
            for s, el, l, w, o in parts:
                s.drv.append((el, l, w, src, o, tot))
            return
        s, el, l, w = self.place(e, g)
        s.drv.append((el, l, w, src, 0, w))

    def place(self, e, g):
        s, sels = self.ref(e, g)
        el, rest = s.udims, list(sels)
        idx = 0
        whole = False
        for dim in s.udims:
            if not rest:
                whole = True
                break
            x = rest.pop(0)
            if x[0] != "sel":
                raise SVError("slice of an unpacked array")
            i = self.const(x[2], g)
            p = off(dim, i)
            if p is None:
                raise SVError(f"index {i} outside {s.name}")
            idx = idx * (abs(dim[0] - dim[1]) + 1) + p
        if s.udims and whole:
            if sels:
                raise SVError("partial array")
            return s, None, 0, s.width
        lo, w = 0, s.width
        dims = list(s.dims) or [(0, 0)]
        for x in rest:
            if not dims:
                raise SVError("too many selects")
            dim = dims.pop(0)
            n = abs(dim[0] - dim[1]) + 1
            ew = w // n
            if x[0] == "sel":
                i = self.const(x[2], g)
                p = off(dim, i)
                if p is None:
                    raise SVError(f"index {i} outside {s.name}")
                lo, w = lo + p * ew, ew
            elif x[0] == "part":
                a, b = off(dim, self.const(x[2], g)), off(dim, self.const(x[3], g))
                if a is None or b is None or a < b:
                    raise SVError(f"part select outside {s.name}")
                lo, w = lo + b * ew, (a - b + 1) * ew
                dims.insert(0, (a - b, 0))
            else:
                i, n_ = self.const(x[2], g), self.const(x[3], g)
                lo_i = i if x[4] > 0 else i - n_ + 1
                p = off(dim, lo_i)
                if p is None or off(dim, lo_i + n_ - 1) is None:
                    raise SVError(f"part select outside {s.name}")
                lo, w = lo + p * ew, n_ * ew
                dims.insert(0, (n_ - 1, 0))
        return s, idx, lo, w


# ---------------------------------------------------------------------------------------------------------------- values
def nrm(v, w):
    """the pattern of v in w bits"""
    if isinstance(v, ir.Node):
        if ir.lo(v) >= 0 and ir.hi(v) < 2 ** w:
            return v
        return ir.modc(v, 2 ** w)
    return int(v) % 2 ** w


def sgn(v, w):
    """signed reading of a w-bit pattern"""
    v = nrm(v, w)
    if isinstance(v, ir.Node):
        if ir.hi(v) < 2 ** (w - 1):
            return v
        return ir.ite(ir.lt(v, 2 ** (w - 1)), v, ir.sub(v, 2 ** w))
    return v - 2 ** w if v >= 2 ** (w - 1) else v


def bits(v, lo, n):
    """n bits of a non-negative pattern from bit lo"""
    if isinstance(v, ir.Node):
        if lo:
            v = ir.fdivc(v, 2 ** lo)
        if isinstance(v, ir.Node) and ir.hi(v) >= 2 ** n:
            v = ir.modc(v, 2 ** n)
        return v
    return (int(v) >> lo) % 2 ** n


def put(v, lo, n, x, w):
    """pattern v (w bits) with n bits from lo replaced by x"""
    if lo == 0 and n >= w:
        return nrm(x, w)
    top = bits(v, lo + n, w - lo - n) if lo + n < w else 0
    low = bits(v, 0, lo) if lo else 0
    r = ir.mul(nrm(x, n), 2 ** lo) if lo else nrm(x, n)
    if lo:
        r = ir.add(r, low)
    if lo + n < w:
        r = ir.add(r, ir.mul(top, 2 ** (lo + n)))
    return r


def truth(v):
    """boolean of a pattern"""
    if isinstance(v, ir.Node):
        return ir.ne(v, 0)
    return bool(v)


def b1(c):
    r = ir.b2i(c)
    return int(r) if not isinstance(r, ir.Node) else r


def parity(v, w):
    r = 0
    for i in range(w):
        b = bits(v, i, 1)
        r = b1(ir.ne(r, b))
    return r


class Ev:
    """evaluation of expressions in an instance; sim=None for constants"""
    def __init__(self, inst, sim, g, loc=None, const=False):
        self.inst, self.sim, self.g, self.loc, self.k = inst, sim, g, loc, const

    # ---- sizes
    def size(self, e):
        """(width, signed) self-determined"""
        k = e[0]
        if k == "num":
            return e[2], e[3]
        if k == "pat":
            return e[2], False
        if k == "fill":
            return 1, False
        if k == "par":
            return self.size(e[1])
        if k == "id":
            n = e[1]
            if self.loc is not None and n in self.loc["w"]:
                return self.loc["w"][n]
            if n in self.g:
                if isinstance(self.g[n], tuple):
                    s = self.inst.sigs[self.g[n][1]]
                    return s.width, s.signed
                return 32, True
            if n in self.inst.sigs:
                s = self.inst.sigs[n]
                return s.width, s.signed
            if n in self.inst.par:
                return 32, True
            raise SVError(f"{n} is not declared")
        if k in ("sel", "part", "ipart"):
            return self.selsize(e), False
        if k == "cat":
            return sum(self.size(x)[0] for x in e[1]), False
        if k == "rep":
            return self.inst.const(e[1], self.cg()) * self.size(e[2])[0], False
        if k == "un":
            if e[1] in ("~", "-", "+"):
                return self.size(e[2])
            return 1, False
        if k == "bin":
            o = e[1]
            if o in ("==", "!=", "===", "!==", "==?", "!=?", "<", "<=", ">", ">=", "&&", "||"):
                return 1, False
            a = self.size(e[2])
            if o in ("<<", ">>", "<<<", ">>>", "**"):
                return a
            b = self.size(e[3])
            return max(a[0], b[0]), a[1] and b[1]
        if k == "tern":
            a, b = self.size(e[2]), self.size(e[3])
            return max(a[0], b[0]), a[1] and b[1]
        if k == "call":
            if e[1] in ("$signed", "$unsigned", "signed", "unsigned"):
                return self.size(e[2][0])[0], e[1].endswith("signed") and "un" not in e[1]
            if e[1] in ("$clog2", "$bits", "$countones"):
                return 32, True
            if e[1] in self.inst.funcs:
                f = self.inst.funcs[e[1]]
                w = 1
                for a, b in self.inst.rng(f[3]):
                    w *= abs(a - b) + 1
                return w, f[2]
            raise SVError(f"function {e[1]}")
        if k == "cast":
            t = e[1]
            if t == ("id", "int"):
                return 32, True
            if t[0] == "call" or t in (("id", "signed"), ("id", "unsigned")):
                return self.size(e[2])[0], t[1] == "signed"
            return self.inst.const(t, self.cg()), self.size(e[2])[1]
        raise SVError(k)

    def cg(self):
        """names with constant values here"""
        g = dict(self.g)
        if self.loc is not None:
            for n, v in self.loc["v"].items():
                if not isinstance(v, ir.Node):
                    g[n] = v
        return g

    def decl(self, e):
        base, sels = e, []
        while base[0] in ("sel", "part", "ipart"):
            sels.append(base)
            base = base[1]
        sels = sels[::-1]
        return base, sels

    def selsize(self, e):
        base, sels = self.decl(e)
        if base[0] == "id" and base[1] not in self.inst.par and not (self.loc and base[1] in self.loc["w"]):
            s, _ = self.inst.ref(base, self.g)
            ud, dims, w = list(s.udims), list(s.dims) or [(0, 0)], s.width
        else:
            w, _ = self.size(base)
            ud, dims = [], [(w - 1, 0)]
        for x in sels:
            if ud:
                ud.pop(0)
                continue
            if not dims:
                raise SVError("too many selects")
            n = abs(dims[0][0] - dims[0][1]) + 1
            ew = w // n
            if x[0] == "sel":
                w = ew
                dims.pop(0)
            else:
                if x[0] == "part":
                    k = abs(self.inst.const(x[2], self.cg()) - self.inst.const(x[3], self.cg())) + 1
                else:
                    k = self.inst.const(x[3], self.cg())
                w = k * ew
                dims[0] = (k - 1, 0)
        return w

    # ---- values
    def value(self, e):
        """self-determined value, read with its own sign (a Python-level integer)"""
        w, s = self.size(e)
        v = self.ev(e, w, s)
        return sgn(v, w) if s else nrm(v, w)

    def bit(self, e):
        """truth of a condition"""
        w, s = self.size(e)
        return truth(nrm(self.ev(e, w, s), w))

    def ext(self, v, w0, s, w):
        """a w0-bit pattern in a w-bit context of sign s"""
        v = nrm(v, w0)
        if w > w0 and s:
            return nrm(sgn(v, w0), w)
        return v

    def assigned(self, e, w):
        """value of a right-hand side assigned to w bits"""
        w0, s = self.size(e)
        W = max(w, w0)
        return nrm(self.ev(e, W, s), w)

    def ev(self, e, w, s):
        """value in a context of w bits and sign s; modulo 2^w"""
        k = e[0]
        if k == "par":
            return self.ev(e[1], w, s)
        if k == "num":
            return self.ext(e[1], e[2], s, w)
        if k == "fill":
            return (2 ** w - 1) * e[1]
        if k == "pat":
            raise SVError("x/z literal outside a casez label")
        if k == "bin":
            o = e[1]
            if o in ("+", "-", "*"):
                a, b = self.ev(e[2], w, s), self.ev(e[3], w, s)
                r = {"+": ir.add, "-": ir.sub, "*": ir.mul}[o](a, b)
                return r if isinstance(r, ir.Node) else nrm(r, w)
            if o in ("&", "|", "^", "~^", "^~"):
                a, b = nrm(self.ev(e[2], w, s), w), nrm(self.ev(e[3], w, s), w)
                return self.bitwise(o, a, b, w)
            if o in ("/", "%", "**"):
                a, b = nrm(self.ev(e[2], w, s), w), (self.value(e[3]) if o == "**" else nrm(self.ev(e[3], w, s), w))
                if s:
                    a, b = sgn(a, w), (b if o == "**" else sgn(b, w))
                if isinstance(b, ir.Node) or (isinstance(a, ir.Node) and (o == "**" or ir.lo(a) < 0 or b <= 0)):
                    raise SVError(f"symbolic operand of {o}")
                if o == "**":
                    return nrm(int(a ** b) if b >= 0 else 0, w)
                if b == 0:
                    raise SVError("division by zero")
                if isinstance(a, ir.Node):
                    return ir.fdivc(a, b) if o == "/" else ir.modc(a, b)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return nrm(q if o == "/" else a - q * b, w)
            if o in ("<<", ">>", "<<<", ">>>"):
                a = nrm(self.ev(e[2], w, s), w)
                n = self.value(e[3])
                ws, _ = self.size(e[3])
                n = nrm(n, ws)
                f = (lambda i: self.shift(o, a, i, w, s))
                if not isinstance(n, ir.Node):
                    return f(n)
                r = f(w)
                for i in range(min(w - 1, int(ir.hi(n))), -1, -1):
                    r = ir.ite(ir.eq(n, i), f(i), r)
                return r
            # one-bit results
            if o in ("&&", "||"):
                a, b = self.bit(e[2]), self.bit(e[3])
                return b1(ir.And(a, b) if o == "&&" else ir.Or(a, b))
            (wa, sa), (wb, sb) = self.size(e[2]), self.size(e[3])
            W, S = max(wa, wb), sa and sb
            a, b = nrm(self.ev(e[2], W, S), W), nrm(self.ev(e[3], W, S), W)
            if S:
                a, b = sgn(a, W), sgn(b, W)
            c = {"==": ir.eq, "===": ir.eq, "==?": ir.eq, "!=": ir.ne, "!==": ir.ne, "!=?": ir.ne, "<": ir.lt, "<=": ir.le, ">": lambda x, y: ir.lt(y, x), ">=": lambda x, y: ir.le(y, x)}[o](a, b)
            return b1(c)
        if k == "un":
            o = e[1]
            if o == "+":
                return self.ev(e[2], w, s)
            if o == "-":
                r = ir.sub(0, self.ev(e[2], w, s))
                return r if isinstance(r, ir.Node) else nrm(r, w)
            if o == "~":
                return ir.sub(2 ** w - 1, nrm(self.ev(e[2], w, s), w))
            wa, sa = self.size(e[2])
            a = nrm(self.ev(e[2], wa, sa), wa)
            if o == "!":
                return b1(ir.eq(a, 0))
            if o == "&":
                return b1(ir.eq(a, 2 ** wa - 1))
            if o == "~&":
                return b1(ir.ne(a, 2 ** wa - 1))
            if o == "|":
                return b1(ir.ne(a, 0))
            if o == "~|":
                return b1(ir.eq(a, 0))
            p = parity(a, wa)
            return p if o == "^" else ir.sub(1, p)
        if k == "tern":
            c = self.bit(e[1])
            if c is True:
                return self.ev(e[2], w, s)
            if c is False:
                return self.ev(e[3], w, s)
            return ir.ite(c, nrm(self.ev(e[2], w, s), w), nrm(self.ev(e[3], w, s), w))
        if k == "cat":
            v = 0
            for x in e[1]:
                wx, sx = self.size(x)
                v = ir.add(ir.mul(v, 2 ** wx), nrm(self.ev(x, wx, sx), wx))
            return self.ext(v, self.size(e)[0], False, w)
        if k == "rep":
            n = self.inst.const(e[1], self.cg())
            wx, _ = self.size(e[2])
            x = nrm(self.ev(e[2], wx, False), wx)
            v = 0
            for _ in range(n):
                v = ir.add(ir.mul(v, 2 ** wx), x)
            return v
        if k == "call":
            if e[1] in ("$signed", "$unsigned", "signed", "unsigned"):
                wa, sa = self.size(e[2][0])
                return self.ext(self.ev(e[2][0], wa, sa), wa, s and "un" not in e[1], w) if "un" not in e[1] else self.ext(self.ev(e[2][0], wa, sa), wa, False, w)
            if e[1] == "$clog2":
                n = self.inst.const(e[2][0], self.cg())
                return max(n - 1, 0).bit_length()
            if e[1] == "$bits":
                return self.size(e[2][0])[0]
            if e[1] == "$countones":
                wa, sa = self.size(e[2][0])
                a = nrm(self.ev(e[2][0], wa, sa), wa)
                r = 0
                for i in range(wa):
                    r = ir.add(r, bits(a, i, 1))
                return r
            return self.ext(self.call(e), self.size(e)[0], s, w)
        if k == "cast":
            wc, scs = self.size(e)
            w0, s0 = self.size(e[2])
            return self.ext(self.ev(e[2], max(wc, w0), s0), wc, s, w)
        # names and selects
        w0, s0 = self.size(e)
        return self.ext(self.read(e), w0, s, w)

    def bitwise(self, o, a, b, w):
        if not isinstance(a, ir.Node) and not isinstance(b, ir.Node):
            r = {"&": a & b, "|": a | b}.get(o, a ^ b)
            return (2 ** w - 1) ^ r if "~" in o else r
        if w == 1 or (ir.hi(a) <= 1 and ir.hi(b) <= 1 and ir.lo(a) >= 0 and ir.lo(b) >= 0):
            A, B = truth(a), truth(b)
            r = b1({"&": ir.And, "|": ir.Or}.get(o, ir.Xor)(A, B))
        else:
            r = ir.bitop({"&": "and", "|": "or"}.get(o, "xor"), a, b, w + 1)
        return ir.sub(2 ** w - 1, r) if "~" in o else r

    def shift(self, o, a, n, w, s):
        if n >= w:
            if o == ">>>" and s:
                return nrm(ir.ite(ir.lt(sgn(a, w), 0), -1, 0), w)
            return 0
        if o in ("<<", "<<<"):
            return nrm(ir.mul(a, 2 ** n), w)
        if o == ">>>" and s:
            x = sgn(a, w)
            return nrm(ir.fdivc(x, 2 ** n) if isinstance(x, ir.Node) else x >> n, w)
        return bits(a, n, w - n)

    def call(self, e):
        _, n, sg, dm, args, body = self.inst.funcs[e[1]] if e[1] in self.inst.funcs else self.nofunc(e[1])
        loc = {"v": {}, "w": {}, "ret": n}
        rw, rs = self.size(e)
        loc["w"][n] = (rw, rs)
        if len(args) != len(e[2]):
            raise SVError(f"arguments of {n}")
        for (a, s_, d_), x in zip(args, e[2]):
            w = 1
            for p, q in self.inst.rng(d_):
                w *= abs(p - q) + 1
            loc["w"][a] = (w, s_)
            loc["v"][a] = self.assigned(x, w)
        x = Exec(self.inst, self.sim, self.g, loc)
        x.run(body)
        if n not in loc["v"]:
            raise SVError(f"{n} returns nothing")
        return loc["v"][n]

    def nofunc(self, n):
        raise SVError(f"function {n}")

    def read(self, e):
        base, sels = self.decl(e)
        if base[0] != "id":
            wb, sb = self.size(base)
            v, ud, dims, w = nrm(self.ev(base, wb, sb), wb), [], [(wb - 1, 0)], wb
            get = None
        else:
            n = base[1]
            if self.loc is not None and n in self.loc["w"]:
                if n not in self.loc["v"]:
                    raise SVError(f"{n} read before it is assigned")
                wb, _ = self.loc["w"][n]
                v, ud, dims, w, get = nrm(self.loc["v"][n], wb), [], [(wb - 1, 0)], wb, None
            elif n in self.g and not isinstance(self.g[n], tuple):
                v, ud, dims, w, get = nrm(self.g[n], 32), [], [(31, 0)], 32, None
            elif (n in self.g) or n in self.inst.sigs:
                s, _ = self.inst.ref(base, self.g)
                if self.k:
                    raise SVError(f"{n} is not a constant")
                ud, dims, w = list(s.udims), list(s.dims) or [(0, 0)], s.width
                v = None
                get = lambda el, lo, n_: self.getsig(s, el, lo, n_)
            elif n in self.inst.par:
                v, ud, dims, w, get = nrm(self.inst.par[n], 32), [], [(31, 0)], 32, None
            else:
                raise SVError(f"{n} is not declared")
        if get is None:
            get = lambda el, lo, n_: bits(v, lo, n_)
        # choices: list of (condition, element, low bit), symbolic indices fan out
        ch = [(True, 0, 0)]
        bad = []
        for x in sels:
            if ud:
                dim = ud.pop(0)
                if x[0] != "sel":
                    raise SVError("slice of an unpacked array")
                n = abs(dim[0] - dim[1]) + 1
                i = self.value(x[2])
                ch, bd = self.fan(ch, dim, i, lambda c, el, lo, p: (c, el * n + p, lo), 1)
                bad += bd
                continue
            if not dims:
                raise SVError("too many selects")
            dim = dims[0]
            n = abs(dim[0] - dim[1]) + 1
            ew = w // n
            if x[0] == "sel":
                i = self.value(x[2])
                ch, bd = self.fan(ch, dim, i, lambda c, el, lo, p: (c, el, lo + p * ew), 1)
                bad += bd
                w = ew
                dims.pop(0)
            elif x[0] == "part":
                a, b = self.inst.const(x[2], self.cg()), self.inst.const(x[3], self.cg())
                p, q = off(dim, a), off(dim, b)
                if p is None or q is None or p < q:
                    raise SVError("part select outside the vector")
                ch = [(c, el, lo + q * ew) for c, el, lo in ch]
                w, dims[0] = (p - q + 1) * ew, (p - q, 0)
            else:
                k = self.inst.const(x[3], self.cg())
                i = self.value(x[2])
                if x[4] < 0:
                    i = ir.sub(i, k - 1)
                ch, bd = self.fan(ch, dim, i, lambda c, el, lo, p: (c, el, lo + p * ew), k)
                bad += bd
                w, dims[0] = k * ew, (k - 1, 0)
        if ud:
            raise SVError("unpacked array used as a value")
        vals = [(c, get(el, lo, w)) for c, el, lo in ch]
        vals += [(c, self.sim.unknown(w)) for c in bad]
        if not vals:
            raise SVError("no value")
        r = vals[-1][1]
        for c, x in reversed(vals[:-1]):
            r = ir.ite(c, x, r)
        return r

    def fan(self, ch, dim, i, f, n):
        out, bad = [], []
        if not isinstance(i, ir.Node):
            p = off(dim, int(i))
            q = off(dim, int(i) + n - 1)
            if p is None or q is None:
                return [], [c for c, _, _ in ch]
            p = min(p, q)
            return [f(c, el, lo, p) for c, el, lo in ch], []
        cases = []
        a, b = min(dim), max(dim)
        for j in range(a, b - n + 2):
            if ir.lo(i) <= j <= ir.hi(i):
                p = min(off(dim, j), off(dim, j + n - 1))
                cases.append((ir.eq(i, j), p))
        over = ir.lo(i) < a or ir.hi(i) > b - n + 1
        for c, el, lo in ch:
            for k, p in cases:
                out.append(f(ir.And(c, k), el, lo, p))
            if over:
                bad.append(ir.And(c, ir.Or(ir.lt(i, a), ir.lt(b - n + 1, i))))
        return out, bad

    def getsig(self, s, el, lo, n):
        return self.sim.get(self.inst, s, el, lo, n)


class Exec:
    """symbolic execution of a procedural block"""
    def __init__(self, inst, sim, g, loc=None):
        self.inst, self.sim, self.g, self.loc = inst, sim, g, loc
        self.now, self.nxt = {}, {}        # (signal, element) -> [pattern, written mask as list of conditions per bit]
        self.over = False

    def ev(self):
        e = Ev(self.inst, self.sim, self.g, self.loc)
        e.getsig = self.getsig
        return e

    def getsig(self, s, el, lo, n):
        k = (s.name, el)
        if k in self.now:
            v, m = self.now[k]
            if all(m[i] is True for i in range(lo, lo + n)):
                return bits(v, lo, n)
            if all(m[i] is False for i in range(lo, lo + n)):
                return self.sim.get(self.inst, s, el, lo, n, self)
            r = 0
            old = None
            for i in range(n):
                c = m[lo + i]
                b = bits(v, lo + i, 1)
                if c is not True:
                    b = ir.ite(c, b, self.sim.get(self.inst, s, el, lo + i, 1, self))
                r = ir.add(r, ir.mul(b, 2 ** i))
            return r
        return self.sim.get(self.inst, s, el, lo, n, self)

    def run(self, st):
        k = st[0]
        if k == "blk":
            for x in st[1]:
                self.run(x)
        elif k == "vdecl":
            it = st[1]
            _, n, sg, dm, ud, w, init, kind = it
            if ud:
                raise SVError("local array")
            if self.loc is None:
                self.loc = {"v": {}, "w": {}, "ret": None}
            ww = w or 1
            for a, b in self.inst.rng(dm, self.ev().cg()):
                ww *= abs(a - b) + 1
            self.loc["w"][n] = (ww, sg)
            self.loc["v"].pop(n, None)
            if init is not None:
                self.loc["v"][n] = self.ev().assigned(init, ww)
        elif k in ("nb", "ba"):
            self.assign(st[1], st[2], k)
        elif k == "ret":
            n = self.loc["ret"]
            self.loc["v"][n] = self.ev().assigned(st[1], self.loc["w"][n][0])
        elif k == "if":
            c = self.ev().bit(st[1])
            self.branch([(c, st[2]), (True, st[3])])
        elif k == "case":
            e = self.ev()
            br = []
            labels = [x for ls, _ in st[2] for x in ls]
            W, S = e.size(st[1])
            for x in labels:
                wx, sx = e.size(x)
                W, S = max(W, wx), S and sx
            v = nrm(e.ev(st[1], W, S), W)
            for ls, body in st[2]:
                cs = []
                for x in ls:
                    if x[0] == "pat":
                        if st[4] == "case":
                            raise SVError("x/z in a case label")
                        d = x[1].rjust(x[2], "0")
                        cs.append(ir.And(*[ir.eq(bits(v, len(d) - 1 - i, 1), int(ch)) for i, ch in enumerate(d) if ch in "01"]))
                    else:
                        cs.append(ir.eq(v, nrm(e.ev(x, W, S), W)))
                br.append((ir.Or(*cs), body))
            br.append((True, st[3]))
            self.branch(br)
        elif k == "for":
            _, v, a, c, (sv, se), body = st
            if sv != v:
                raise SVError("loop step of another variable")
            g = dict(self.ev().cg())
            g[v] = self.inst.const(a, g)
            n = 0
            while self.inst.const(c, g):
                keep = self.g
                self.g = g
                self.run(body)
                self.g = keep
                g = dict(g)
                g[v] = self.inst.const(se, g)
                n += 1
                if n > 4096:
                    raise SVError("loop does not end")
        else:
            raise SVError(k)

    def branch(self, br):
        """first true branch"""
        br = [(c, s) for c, s in br if c is not False]
        for i, (c, s) in enumerate(br):
            if c is True:
                br = br[:i + 1]
                break
        if not br:
            return
        if br[0][0] is True:
            if br[0][1] is not None:
                self.run(br[0][1])
            return
        snap = lambda: ({k: [v[0], list(v[1])] for k, v in self.now.items()}, {k: [v[0], list(v[1])] for k, v in self.nxt.items()},
                        None if self.loc is None else dict(self.loc["v"]))
        s0 = snap()
        c, body = br[0]
        if body is not None:
            self.run(body)
        sa = snap()
        self.now, self.nxt = {k: [v[0], list(v[1])] for k, v in s0[0].items()}, {k: [v[0], list(v[1])] for k, v in s0[1].items()}
        if self.loc is not None:
            self.loc["v"] = dict(s0[2] or {})
        self.branch(br[1:])
        for d, da in ((self.now, sa[0]), (self.nxt, sa[1])):
            for k in set(d) | set(da):
                w = self.width(k)
                va, vb = da.get(k), d.get(k)
                if va is None:
                    va = [0, [False] * w]
                if vb is None:
                    vb = [0, [False] * w]
                d[k] = [ir.ite(c, va[0], vb[0]) if va[0] is not vb[0] else va[0],
                        [x if x is y else ir.Or(ir.And(c, x), ir.And(ir.Not(c), y)) for x, y in zip(va[1], vb[1])]]
        if self.loc is not None and sa[2] is not None:
            lv = self.loc["v"]
            for n in set(lv) | set(sa[2]):
                if n in lv and n in sa[2]:
                    if lv[n] is not sa[2][n]:
                        lv[n] = ir.ite(c, sa[2][n], lv[n])
                else:
                    lv.setdefault(n, sa[2].get(n))

    def width(self, k):
        return self.inst.sigs[k[0]].width

    def assign(self, l, rhs, kind):
        e = self.ev()
        if l[0] == "cat":
            ws = [e.size(x)[0] for x in l[1]]
            v = e.assigned(rhs, sum(ws))
            o = sum(ws)
            for x, w in zip(l[1], ws):
                o -= w
                self.store(x, bits(v, o, w), w, kind)
            return
        if l[0] == "id" and (self.loc is None or l[1] not in self.loc["w"]):
            s, _ = self.inst.ref(l, self.g)
            if s.udims:
                if rhs[0] != "id":
                    raise SVError("array assignment")
                s2, _ = self.inst.ref(rhs, self.g)
                if s2.count != s.count or s2.width != s.width:
                    raise SVError("array assignment")
                for i in range(s.count):
                    self.write(s, i, 0, s.width, e.getsig(s2, i, 0, s.width), True, kind)
                return
        w, _ = e.size(l)
        self.store(l, e.assigned(rhs, w), w, kind)

    def store(self, l, v, w, kind):
        e = self.ev()
        base, sels = e.decl(l)
        if base[0] != "id":
            raise SVError("lvalue")
        if self.loc is not None and base[1] in self.loc["w"]:
            wb, _ = self.loc["w"][base[1]]
            if not sels:
                self.loc["v"][base[1]] = v
                return
            if len(sels) > 1 or sels[0][0] != "sel":
                raise SVError("select of a local variable")
            i = e.value(sels[0][2])
            old = self.loc["v"].get(base[1], 0)
            if isinstance(i, ir.Node):
                raise SVError("symbolic select of a local variable")
            self.loc["v"][base[1]] = put(old, i, 1, v, wb)
            return
        s, _ = self.inst.ref(base, self.g)
        ud, dims, ww = list(s.udims), list(s.dims) or [(0, 0)], s.width
        ch = [(True, 0, 0)]
        for x in sels:
            if ud:
                dim = ud.pop(0)
                n = abs(dim[0] - dim[1]) + 1
                ch, _ = e.fan(ch, dim, e.value(x[2]), lambda c, el, lo, p: (c, el * n + p, lo), 1)
                continue
            if not dims:
                raise SVError("too many selects")
            dim = dims[0]
            n = abs(dim[0] - dim[1]) + 1
            ew = ww // n
            if x[0] == "sel":
                ch, _ = e.fan(ch, dim, e.value(x[2]), lambda c, el, lo, p: (c, el, lo + p * ew), 1)
                ww = ew
                dims.pop(0)
            elif x[0] == "part":
                p, q = off(dim, self.inst.const(x[2], e.cg())), off(dim, self.inst.const(x[3], e.cg()))
                if p is None or q is None or p < q:
                    raise SVError("part select outside the vector")
                ch = [(c, el, lo + q * ew) for c, el, lo in ch]
                ww, dims[0] = (p - q + 1) * ew, (p - q, 0)
            else:
                k = self.inst.const(x[3], e.cg())
                i = e.value(x[2])
                if x[4] < 0:
                    i = ir.sub(i, k - 1)
                ch, _ = e.fan(ch, dim, i, lambda c, el, lo, p: (c, el, lo + p * ew), k)
                ww, dims[0] = k * ew, (k - 1, 0)
        if ud:
            raise SVError("partial array assignment")
        for c, el, lo in ch:
            self.write(s, el, lo, ww, v, c, kind)

    def write(self, s, el, lo, w, v, c, kind):
        d = self.nxt if kind == "nb" else self.now
        k = (s.name, el)
        if k not in d:
            d[k] = [0, [False] * s.width]
        old, m = d[k]
        if c is True:
            d[k] = [put(old, lo, w, v, s.width), [True if lo <= i < lo + w else x for i, x in enumerate(m)]]
        else:
            # an unwritten bit becomes written under c only
            d[k] = [put(old, lo, w, ir.ite(c, nrm(v, w), bits(old, lo, w)), s.width),
                    [(True if x is True else ir.Or(x, c)) if lo <= i < lo + w else x for i, x in enumerate(m)]]


# ---------------------------------------------------------------------------------------------------------------- simulation
class Sim:
    """one elaborated design; `step` evaluates one clock cycle"""
    def __init__(self, path, top, par=None, defines=None, fresh=None, override=None, parsed=None):
        mods, glob, self.files = parsed or parse(path, defines, override)
        if top not in mods:
            raise SVError(f"module {top} not found in {os.path.basename(path)}")
        self.fresh, self.nfresh = fresh, 0
        self.top = Inst(self, mods, glob, mods[top], dict(par or {}), (top,), None)
        self.insts = []

        def walk(i):
            self.insts.append(i)
            for k in i.kids.values():
                walk(k)
        walk(self.top)
        for i in self.insts:
            self.prepare(i)
        self.state = {}
        self.cache, self.busy, self.inputs = {}, set(), {}
        self.undriven = set()

    # ---- who drives what
    def prepare(self, inst):
        for n, (k, it, g) in enumerate(inst.procs):
            body = it[-1]
            tg = set()
            self.targets(inst, body, tg, g, set())
            if any(x[1:] == (None, 0, inst.sigs[x[0]].width) for x in tg):
                full = {x[0] for x in tg if x[1:] == (None, 0, inst.sigs[x[0]].width)}
                tg = {x for x in tg if x[0] not in full} | {(f, None, 0, inst.sigs[f].width) for f in full}
            for name, el, lo, w in tg:
                s = inst.sigs[name]
                if k == "ff":
                    s.reg = s.reg or {}
                    for e in range(s.count) if el is None else [el]:
                        for b in range(lo, lo + w):
                            if s.reg.setdefault((e, b), n) != n:
                                raise SVError(f"{name} is assigned in two processes")
                else:
                    if (el, lo, w) == (None, 0, s.width):
                        s.drv.append((None, 0, s.width, ("proc", n), 0, s.width))
                        continue
                    # the same process may write a bit more than once
                    for e in range(s.count) if el is None else [el]:
                        for b in range(lo, lo + w):
                            if not any(d[0] == e and d[1] == b and d[3] == ("proc", n) for d in s.drv):
                                s.drv.append((e, b, 1, ("proc", n), 0, 1))
        for s in inst.sigs.values():
            if s.reg is not None and s.drv:
                raise SVError(f"{s.name} has a register and another driver")
            if s.reg is not None and len(set(s.reg.values())) > 1 and len(s.reg) < s.count * s.width:
                raise SVError(f"{s.name} is partly a register")
            if s.port == "input" and (s.drv or s.reg is not None):
                raise SVError(f"input {s.name} is assigned")
            seen = {}
            for d in s.drv:
                els = range(s.count) if d[0] is None else [d[0]]
                for e in els:
                    for b in range(d[1], d[1] + d[2]):
                        if (e, b) in seen:
                            raise SVError(f"{s.name} has two drivers")
                        seen[(e, b)] = True

    def targets(self, inst, st, out, g, loc):
        k = st[0]
        if k == "blk":
            loc = set(loc)
            for x in st[1]:
                if x[0] == "vdecl":
                    loc.add(x[1][1])
                else:
                    self.targets(inst, x, out, g, loc)
        elif k in ("nb", "ba"):
            for l in (st[1][1] if st[1][0] == "cat" else [st[1]]):
                l0 = l
                while l[0] in ("sel", "part", "ipart"):
                    l = l[1]
                if l[1] not in loc:
                    s, _ = inst.ref(l, g)
                    out.add(self.reach(inst, l0, g, loc, s))
        elif k == "if":
            for x in st[2:]:
                if x is not None:
                    self.targets(inst, x, out, g, loc)
        elif k == "case":
            for _, b in st[2]:
                self.targets(inst, b, out, g, loc)
            if st[3] is not None:
                self.targets(inst, st[3], out, g, loc)
        elif k == "for":
            self.targets(inst, st[5], out, g, loc | {st[1]})

    def reach(self, inst, l, g, loc, s):
        """the bits an assignment target can reach: exact for constant selects, else the whole signal"""
        try:
            if l[0] != "id":
                s2, el, lo, w = inst.place(l, g)
                return (s.name, el, lo, w)
        except SVError:
            pass
        return (s.name, None, 0, s.width)

    def unknown(self, w):
        self.nfresh += 1
        return self.fresh(f"x{self.nfresh}", w)

    # ---- combinational reads
    def get(self, inst, s, el, lo, n, ex=None):
        if s.port == "input":
            return bits(self.input(inst, s, el), lo, n)
        if s.reg is not None:
            return bits(self.state[inst.path, s.name, el], lo, n)
        # join the drivers that cover the bits
        parts, b = [], lo
        while b < lo + n:
            d = next((x for x in s.drv if (x[0] is None or x[0] == el) and x[1] <= b < x[1] + x[2]), None)
            if d is None:
                e = b + 1
                while e < lo + n and not any((x[0] is None or x[0] == el) and x[1] <= e < x[1] + x[2] for x in s.drv):
                    e += 1
                key = ("undriven", inst.path, s.name, el, b, e)
                self.undriven.add((".".join(inst.path), s.name))
                if key not in self.cache:
                    self.cache[key] = self.unknown(e - b)
                parts.append((self.cache[key], e - b))
                b = e
                continue
            e = min(lo + n, d[1] + d[2])
            v = self.driven(inst, s, el, d)
            parts.append((bits(v, b - d[1], e - b), e - b))
            b = e
        v, o = 0, 0
        for x, w in parts:
            v = ir.add(v, ir.mul(x, 2 ** o)) if o else x
            o += w
        return v

    def enter(self, key):
        if key in self.busy:
            raise SVError("combinational loop through " + ".".join(key[1]) + "." + str(key[2]))
        self.busy.add(key)

    def driven(self, inst, s, el, d):
        de, lo, w, src, o, tot = d
        if src[0] == "expr":
            key = ("e", inst.path, s.name, id(d), el if de is None else None)
            if key not in self.cache:
                self.enter(key)
                if de is None and s.udims:
                    x = src[1]
                    s2, _ = inst.ref(x, src[2]) if x[0] == "id" else (None, None)
                    if s2 is None or s2.count != s.count or s2.width != s.width:
                        raise SVError("array assignment")
                    self.cache[key] = self.get(inst, s2, el, 0, s2.width)
                else:
                    self.cache[key] = bits(Ev(inst, self, src[2]).assigned(src[1], tot), o, w)
                self.busy.discard(key)
            return self.cache[key]
        if src[0] == "out":
            kid, p = src[1], src[2]
            ks = kid.sigs[p]
            v = self.get(kid, ks, el if de is None else 0, 0, ks.width)
            if tot > ks.width and ks.signed:
                v = nrm(sgn(v, ks.width), tot)
            return bits(nrm(v, tot), o, w)
        # always_comb
        n = src[1]
        key = ("p", inst.path, n)
        if key not in self.cache:
            self.enter(key)
            k, it, g = inst.procs[n]
            x = Exec(inst, self, g)
            x.run(it[-1])
            res = {}
            for dd in (x.now, x.nxt):
                for kk, (v, m) in dd.items():
                    if kk in res:
                        raise SVError(f"{kk[0]} is assigned with = and <=")
                    sw = inst.sigs[kk[0]].width
                    for i in range(sw):
                        # only the bits this process drives are ever read from it
                        if m[i] is not True and any(y[3] is src or y[3] == src for y in inst.sigs[kk[0]].drv if (y[0] is None or y[0] == kk[1]) and y[1] <= i < y[1] + y[2]):
                            u = self.unknown(1)
                            v = put(v, i, 1, ir.ite(m[i], bits(v, i, 1), u) if m[i] is not False else u, sw)
                    res[kk] = v
            self.cache[key] = res
            self.busy.discard(key)
        res = self.cache[key]
        if (s.name, el) not in res:
            res[s.name, el] = self.unknown(s.width)
        return bits(res[s.name, el], lo, w)

    def input(self, inst, s, el):
        key = ("i", inst.path, s.name, el)
        if key not in self.cache:
            if inst.parent is None:
                if s.name not in self.inputs:
                    raise SVError(f"input {s.name} is not given")
                v = self.inputs[s.name]
                self.cache[key] = nrm(v[el] if s.udims else v, s.width)
            elif s.name not in inst.conn:
                self.undriven.add((".".join(inst.path), s.name))
                self.cache[key] = self.unknown(s.width)
            else:
                e, g = inst.conn[s.name]
                self.enter(key)
                if s.udims:
                    s2, _ = inst.parent.ref(e, g)
                    if s2.count != s.count or s2.width != s.width:
                        raise SVError(f"port {s.name}: sizes differ")
                    v = self.get(inst.parent, s2, el, 0, s2.width)
                else:
                    v = Ev(inst.parent, self, g).assigned(e, s.width)
                self.cache[key] = v
                self.busy.discard(key)
        return self.cache[key]

    # ---- clock and reset
    def edge(self, inst, ev, want):
        """is the event a plain top-level signal (possibly renamed by ports)?"""
        kind, e = ev
        while e[0] == "par":
            e = e[1]
        if e[0] != "id" or e[1] not in inst.sigs:
            raise SVError("event expression")
        n = e[1]
        i = inst
        while i.parent is not None:
            if n not in i.conn:
                raise SVError(f"clock or reset {n} of {i.name} is not connected")
            x, g = i.conn[n]
            while x[0] == "par":
                x = x[1]
            if x[0] != "id":
                raise SVError("gated clock or reset")
            n, i = x[1], i.parent
        if i.sigs[n].port != "input":
            raise SVError("generated clock or reset")
        return kind, n

    def advance(self, clk, only_async=None):
        """new values of all registers; with only_async, only the blocks sensitive to that reset edge"""
        new = {}
        for inst in self.insts:
            for n, (k, it, g) in enumerate(inst.procs):
                if k != "ff":
                    continue
                evs = [self.edge(inst, e, None) for e in it[1]]
                if only_async is not None:
                    if only_async not in evs:
                        continue
                elif ("posedge", clk) not in evs:
                    raise SVError("register without this clock")
                x = Exec(inst, self, g)
                x.run(it[2])
                for dd in (x.now, x.nxt):
                    for (name, el), (v, m) in dd.items():
                        s = inst.sigs[name]
                        old = self.state[inst.path, name, el]
                        if any(c is not True for c in m):
                            if len(set(map(id, m))) == 1 or all(c is m[0] for c in m):
                                v = ir.ite(m[0], v, old) if m[0] is not False else old
                            else:
                                for i in range(s.width):
                                    if m[i] is not True:
                                        ob = bits(old, i, 1)
                                        v = put(v, i, 1, ir.ite(m[i], bits(v, i, 1), ob) if m[i] is not False else ob, s.width)
                        key = (inst.path, name, el)
                        if key in new:
                            # several processes, each with its own bits
                            for (e, i), o in s.reg.items():
                                if e == el and o == n:
                                    new[key] = put(new[key], i, 1, bits(v, i, 1), s.width)
                        else:
                            new[key] = v
        return new

    def power_up(self):
        """every register holds an arbitrary value"""
        for inst in self.insts:
            for s in inst.sigs.values():
                if s.reg is not None:
                    for el in range(s.count):
                        self.state[inst.path, s.name, el] = self.unknown(s.width)

    def regs(self):
        return [(i.path, s.name, el) for i in self.insts for s in i.sigs.values() if s.reg is not None for el in range(s.count)]

    def ins(self):
        return [n for n in self.top.order if self.top.sigs[n].port == "input"]

    def outs(self):
        return [n for n in self.top.order if self.top.sigs[n].port == "output"]

    def begin(self, inputs):
        self.inputs = dict(inputs)
        self.cache, self.busy = {}, set()

    def reset(self, rst="rst_n", clk="clk", active=0, **inputs):
        """power-up followed by an asynchronous reset; inputs arbitrary"""
        if not self.state:
            self.power_up()
        z = {n: 0 for n in self.ins()}
        z.update(inputs)
        z[rst], z[clk] = active, 0
        self.begin(z)
        if rst in self.ins():
            self.state.update(self.advance(clk, ("negedge" if active == 0 else "posedge", rst)))
        self.rst, self.clk, self.inactive = rst, clk, 1 - active

    def outputs(self, **inputs):
        """outputs before the clock edge (combinational in the inputs)"""
        z = dict(inputs)
        z.setdefault(self.rst, self.inactive)
        z.setdefault(self.clk, 0)
        self.begin(z)
        r = {}
        for n in self.outs():
            s = self.top.sigs[n]
            r[n] = self.get(self.top, s, 0, 0, s.width) if not s.udims else [self.get(self.top, s, i, 0, s.width) for i in range(s.count)]
        return r

    def step(self, **inputs):
        r = self.outputs(**inputs)
        self.state.update(self.advance(self.clk))
        return r
