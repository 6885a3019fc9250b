"""Source programs: a small AST of Tealish with a printer (canonical layout,
line numbers) and reference semantics written from docs/language.rst and
docs/stdlib.rst, independent of the compiler."""
from . import core
from .core import U64, MAXB, AnyVal, Panic, and_, or_, not_
from . import avm
from .avm import prim, U, B, chk, same, Outcome


class BreakEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, vals):
        self.vals = vals


class ExitEx(Exception):
    def __init__(self, v):
        self.v = v


class JumpEx(Exception):
    def __init__(self, name):
        self.name = name


class RefCut(Exception):
    """the reference left the loop bound"""


# ---------------------------------------------------------------- types

class T:
    """kind: int uint8 uint64 bytes bytesN addr bigint struct arr"""

    def __init__(self, text, size, isint, bits=None, struct=None):
        self.text = text
        self.size = size        # bytes; 0 = any length
        self.isint = isint
        self.struct = struct


def tint():
    return T("int", 8, True)


def tuint8():
    return T("uint8", 1, True)


def tuint64():
    return T("uint64", 8, True)


def tbytes(n=None):
    return T("bytes" if n is None else "bytes[%s]" % n, 0 if n is None else n, False)


def taddr():
    return T("addr", 32, False)


def tbigint():
    return T("bigint", 0, False)


def tarr(n):
    return T("uint8[%s]" % n, n, False)


class Struct:
    def __init__(self, name, fields):
        self.name = name
        self.fields = fields            # [(name, T)]
        self.offs = {}
        off = 0
        for f, t in fields:
            self.offs[f] = (off, t)
            off = off + t.size
        self.size = off
        self.type = T(name, off, False, struct=self)

    def emit(self, p):
        self.line = p.line("struct %s:" % self.name)
        p.ind += 1
        for f, t in self.fields:
            p.line("%s: %s" % (f, t.text))
        p.ind -= 1
        p.line("end")

    def run(self, c):
        pass


# ---------------------------------------------------------------- printing

class Printer:
    def __init__(self):
        self.lines = []
        self.ind = 0

    def line(self, s):
        self.lines.append("    " * self.ind + s)
        return len(self.lines)


# ---------------------------------------------------------------- expressions

class Expr:
    def ev(self, c):
        r = self.evm(c)
        assert len(r) == 1, (self, r)
        return r[0]


class Int(Expr):
    def __init__(self, v):
        self.v = v

    def s(self):
        return str(self.v)

    def evm(self, c):
        return [self.v]


class Str(Expr):
    """raw: the characters between the quotes; val: the bytes they denote"""

    def __init__(self, raw, val=None):
        self.raw = raw
        self.val = raw.encode() if val is None else val

    def s(self):
        return '"%s"' % self.raw

    def evm(self, c):
        return [core.D.b_lit(self.val)]


class Raw(Expr):
    """source text with a given meaning"""

    def __init__(self, text, fn):
        self.text = text
        self.fn = fn

    def s(self):
        return self.text

    def evm(self, c):
        return [self.fn(c)]


class Var(Expr):
    def __init__(self, name):
        self.name = name

    def s(self):
        return self.name

    def evm(self, c):
        return [c.env.cell(self.name)[0]]


class Cst(Expr):
    def __init__(self, name):
        self.name = name

    def s(self):
        return self.name

    def evm(self, c):
        v = c.consts[self.name]
        return [core.D.b_lit(v) if isinstance(v, bytes) else v]


class Enum(Expr):
    def __init__(self, name):
        self.name = name

    def s(self):
        return self.name

    def evm(self, c):
        return [avm.NAMED_INTS[self.name]]


class Bin(Expr):
    def __init__(self, op, a, b, grp=False):
        self.op, self.a, self.b, self.grp = op, a, b, grp

    def s(self):
        def sub(e):
            # chaining needs a group
            return "(%s)" % e.s() if isinstance(e, Bin) else e.s()
        return "%s %s %s" % (sub(self.a), self.op, sub(self.b))

    def evm(self, c):
        a = self.a.ev(c)
        b = self.b.ev(c)
        return prim(c.w, self.op, [], [a, b])


class Un(Expr):
    def __init__(self, op, a):
        self.op, self.a = op, a

    def s(self):
        return "%s%s" % (self.op, "(%s)" % self.a.s() if isinstance(self.a, Bin) else self.a.s())

    def evm(self, c):
        return prim(c.w, self.op, [], [self.a.ev(c)])


class Op(Expr):
    """opcode call: name(imm..., arg...); results in Tealish order (top of the
    stack first)"""

    def __init__(self, name, imms=(), args=(), imm_text=None):
        self.name, self.imms, self.args = name, list(imms), list(args)
        self.imm_text = imm_text

    def s(self):
        im = [str(i) for i in self.imms] if self.imm_text is None else self.imm_text
        return "%s(%s)" % (self.name, ", ".join(im + [a.s() for a in self.args]))

    def evm(self, c):
        vals = [a.ev(c) for a in self.args]
        return prim(c.w, self.name, self.imms, vals)[::-1]


class CallF(Expr):
    def __init__(self, name, args=()):
        self.name, self.args = name, list(args)

    def s(self):
        return "%s(%s)" % (self.name, ", ".join(a.s() for a in self.args))

    def evm(self, c):
        vals = [a.ev(c) for a in self.args]
        return c.call(self.name, vals)


class Fld(Expr):
    """kind txn/gtxn/global/itxn; gi: Expr | ('+',n) | ('-',n); ai: Expr"""

    def __init__(self, kind, field, gi=None, ai=None):
        self.kind, self.field, self.gi, self.ai = kind, field, gi, ai

    def s(self):
        ai = "" if self.ai is None else "[%s]" % self.ai.s()
        if self.kind == "gtxn":
            g = "%s%s" % self.gi if isinstance(self.gi, tuple) else self.gi.s()
            return "Gtxn[%s].%s%s" % (g, self.field, ai)
        return "%s.%s%s" % ({"txn": "Txn", "global": "Global", "itxn": "Itxn"}[self.kind], self.field, ai)

    def evm(self, c):
        if self.kind == "global":
            return [avm.global_field(self.field)]
        if self.kind == "itxn":
            ai = None if self.ai is None else U(self.ai.ev(c))
            return [avm.itxn_field_val(c.w, self.field, ai)]
        if self.kind == "txn":
            gi = avm.group_index()
        elif isinstance(self.gi, tuple):
            sgn, n = self.gi
            gi = prim(c.w, sgn, [], [avm.group_index(), n])[0]
        else:
            gi = U(self.gi.ev(c))
        ai = None if self.ai is None else U(self.ai.ev(c))
        if self.kind == "txn" and self.field == "GroupIndex":
            return [avm.group_index()]
        return [avm.txn_field(self.field, gi, ai)]


def arg(i):
    return Fld("txn", "ApplicationArgs", ai=Int(i))


class SField(Expr):
    """field of a struct variable or of a box reference"""

    def __init__(self, var, field):
        self.var, self.field = var, field

    def s(self):
        return "%s.%s" % (self.var, self.field)

    def evm(self, c):
        v, t = c.env.cell(self.var)
        st = t.struct
        off, ft = st.offs[self.field]
        D = core.D
        if t.text.startswith("box<"):
            ex, content = c.w.box(B(v))
            chk(ex, "no such box")
            chk(off + ft.size <= D.b_len(content), "box field range")
            raw = D.b_extract(content, off, ft.size)
        else:
            b = B(v)
            chk(off + ft.size <= D.b_len(b), "struct field range")
            raw = D.b_extract(b, off, ft.size)
        if ft.isint:
            chk(D.b_len(raw) <= 8, "int field")
            return [D.b_btoi(raw)]
        return [raw]


class Std(Expr):
    """standard-library call with reference meaning fn(c, values)->value"""

    def __init__(self, name, args, extra, fn):
        self.name, self.args, self.extra, self.fn = name, list(args), list(extra), fn

    def s(self):
        return "%s(%s)" % (self.name, ", ".join([a.s() for a in self.args] + self.extra))

    def evm(self, c):
        vals = [a.ev(c) for a in self.args]
        r = self.fn(c, vals)
        return r if isinstance(r, list) else [r]


def Concat(*args):
    def fn(c, vals):
        r = vals[0]
        for v in vals[1:]:
            r = prim(c.w, "concat", [], [r, v])[0]
        return r
    return Std("Concat", args, [], fn)


def fits(v, t):
    """is the run-time value v a value of type t?"""
    D = core.D
    if t.isint:
        if t.size == 8 if isinstance(t.size, int) else False:
            return True
        return U(v) < 256 ** t.size
    if isinstance(t.size, int) and t.size == 0:
        return True
    return D.b_len(B(v)) == t.size


def Cast(e, t):
    def fn(c, vals):
        chk(fits(vals[0], t), "Cast")
        return vals[0]
    return Std("Cast", [e], [t.text], fn)


def Unchecked(e, t):
    return Std("UncheckedCast", [e], [t.text], lambda c, v: v)


# ---------------------------------------------------------------- statements

class Stmt:
    line = None

    def at(self, c):
        c.w.line = self.line


class Note(Stmt):
    """comment or blank line"""

    def __init__(self, text):
        self.text = text

    def emit(self, p):
        self.line = p.line(self.text) if self.text else p.line("")

    def run(self, c):
        pass


class Pragma(Note):
    pass


class ConstDef(Stmt):
    def __init__(self, ty, name, lit, value):
        self.ty, self.name, self.lit, self.value = ty, name, lit, value

    def emit(self, p):
        self.line = p.line("const %s %s = %s" % (self.ty, self.name, self.lit))

    def run(self, c):
        c.consts[self.name] = self.value


class Decl(Stmt):
    def __init__(self, t, name, e=None):
        self.t, self.name, self.e = t, name, e

    def emit(self, p):
        self.line = p.line("%s %s%s" % (self.t.text, self.name, " = " + self.e.s() if self.e else ""))

    def run(self, c):
        self.at(c)
        cell = c.env.declare(self.name, self.t)
        if self.e:
            v = self.e.ev(c)
            cell[0] = v


class Asg(Stmt):
    def __init__(self, names, e):
        self.names, self.e = [names] if isinstance(names, str) else list(names), e

    def emit(self, p):
        self.line = p.line("%s = %s" % (", ".join(self.names), self.e.s()))

    def run(self, c):
        self.at(c)
        vals = self.e.evm(c)
        assert len(vals) == len(self.names), (self.names, len(vals))
        for n, v in zip(self.names, vals):
            if n != "_":
                c.env.cell(n)[0] = v


class FSet(Stmt):
    """struct / box field assignment"""

    def __init__(self, var, field, e):
        self.var, self.field, self.e = var, field, e

    def emit(self, p):
        self.line = p.line("%s.%s = %s" % (self.var, self.field, self.e.s()))

    def run(self, c):
        self.at(c)
        D = core.D
        v = self.e.ev(c)
        cell = c.env.cell(self.var)
        t = cell[1]
        off, ft = t.struct.offs[self.field]
        if ft.isint:
            raw = D.b_itob(U(v))
            if isinstance(ft.size, int) and ft.size < 8:
                raw = D.b_extract(raw, 8 - ft.size, ft.size)
        else:
            raw = B(v)
        if t.text.startswith("box<"):
            key = B(cell[0])
            ex, content = c.w.box(key)
            chk(ex, "no such box")
            chk(off + D.b_len(raw) <= D.b_len(content), "box field range")
            c.w.box_set(key, True, D.b_replace(content, off, raw))
        else:
            b = B(cell[0])
            chk(off + D.b_len(raw) <= D.b_len(b), "struct field range")
            cell[0] = D.b_replace(b, off, raw)


class BoxDecl(Stmt):
    def __init__(self, struct, name, method, key):
        self.struct, self.name, self.method, self.key = struct, name, method, key

    def emit(self, p):
        self.line = p.line("box<%s> %s = %sBox(%s)" % (self.struct.name, self.name, self.method, self.key.s()))

    def run(self, c):
        self.at(c)
        D = core.D
        key = self.key.ev(c)
        k = B(key)
        if self.method == "Open":
            ex, content = c.w.box(k)
            chk(ex, "box must exist")
            chk(D.b_len(content) == self.struct.size, "box must have the size of the struct")
        elif self.method == "Create":
            ex, content = c.w.box(k)
            if ex:
                raise Panic("box must not exist")
            chk(self.struct.size <= MAXB, "box size (model bound)")
            c.w.box_set(k, True, D.b_zero(self.struct.size))
        cell = c.env.declare(self.name, T("box<%s>" % self.struct.name, self.struct.size, False, struct=self.struct))
        cell[0] = key


class ExprStmt(Stmt):
    def __init__(self, e):
        self.e = e

    def emit(self, p):
        self.line = p.line(self.e.s())

    def run(self, c):
        self.at(c)
        r = self.e.evm(c)
        assert r == []


class Err(Stmt):
    def emit(self, p):
        self.line = p.line("err()")

    def run(self, c):
        self.at(c)
        raise Panic("err")


class Assert(Stmt):
    def __init__(self, e, msg=None):
        self.e, self.msg = e, msg

    def emit(self, p):
        self.line = p.line("assert(%s%s)" % (self.e.s(), ', "%s"' % self.msg if self.msg else ""))
        if self.msg:
            p.msgs[self.line] = self.msg

    def run(self, c):
        self.at(c)
        if U(self.e.ev(c)) == 0:
            raise Panic("assert")


class Exit(Stmt):
    def __init__(self, e):
        self.e = e

    def emit(self, p):
        self.line = p.line("exit(%s)" % self.e.s())

    def run(self, c):
        self.at(c)
        raise ExitEx(U(self.e.ev(c)))


class Return(Stmt):
    def __init__(self, *es):
        self.es = es

    def emit(self, p):
        self.line = p.line(("return " + ", ".join(e.s() for e in self.es)).strip())

    def run(self, c):
        self.at(c)
        # the compiler evaluates the last expression first; the order is only
        # observable when two of them have effects
        vals = [e.ev(c) for e in self.es[::-1]][::-1]
        raise ReturnEx(vals)


class Break(Stmt):
    def emit(self, p):
        self.line = p.line("break")

    def run(self, c):
        raise BreakEx()


class Jump(Stmt):
    def __init__(self, b):
        self.b = b

    def emit(self, p):
        self.line = p.line("jump %s" % self.b)

    def run(self, c):
        self.at(c)
        raise JumpEx(c.env.block(self.b))


def body_emit(p, stmts):
    p.ind += 1
    for s in stmts:
        s.emit(p)
    p.ind -= 1


def body_run(c, stmts):
    for s in stmts:
        s.run(c)


def cond_text(neg, e):
    return ("not " if neg else "") + e.s()


class If(Stmt):
    """arms: [(neg, cond, body)...]; els: body | None"""

    def __init__(self, arms, els=None):
        self.arms, self.els = arms, els

    def emit(self, p):
        self.lines = []
        for k, (neg, e, body) in enumerate(self.arms):
            self.lines.append(p.line("%s %s:" % ("if" if k == 0 else "elif", cond_text(neg, e))))
            body_emit(p, body)
        self.line = self.lines[0]
        if self.els is not None:
            p.line("else:")
            body_emit(p, self.els)
        p.line("end")

    def run(self, c):
        for ln, (neg, e, body) in zip(self.lines, self.arms):
            c.w.line = ln
            v = U(e.ev(c)) != 0
            if neg:
                v = not_(v)
            if v:
                return body_run(c, body)
        if self.els is not None:
            body_run(c, self.els)


class While(Stmt):
    def __init__(self, neg, e, body):
        self.neg, self.e, self.body = neg, e, body

    def emit(self, p):
        self.line = p.line("while %s:" % cond_text(self.neg, self.e))
        body_emit(p, self.body)
        p.line("end")

    def run(self, c):
        with c.scope(self):
            try:
                while True:
                    self.at(c)
                    v = U(self.e.ev(c)) != 0
                    if self.neg:
                        v = not_(v)
                    if not v:
                        return
                    c.tick()
                    body_run(c, self.body)
            except BreakEx:
                return


class For(Stmt):
    """for var in a:b (var None: for _)"""

    def __init__(self, var, a, b, body):
        self.var, self.a, self.b, self.body = var, a, b, body

    def emit(self, p):
        self.line = p.line("for %s in %s:%s:" % (self.var or "_", self.a.s(), self.b.s()))
        body_emit(p, self.body)
        p.line("end")

    def run(self, c):
        with c.scope(self):
            self.at(c)
            # the loop variable may be used as an ordinary variable by the body
            if self.var:
                cell = c.env.declare(self.var, tint())
            else:
                cell = [None, None]
            cell[0] = self.a.ev(c)
            while True:
                self.at(c)
                if same(cell[0], self.b.ev(c)):
                    return
                c.tick()
                body_run(c, self.body)
                self.at(c)
                cell[0] = prim(c.w, "+", [], [cell[0], 1])[0]


class Switch(Stmt):
    def __init__(self, e, opts, els=None):
        self.e, self.opts, self.els = e, opts, els

    def emit(self, p):
        self.line = p.line("switch %s:" % self.e.s())
        p.ind += 1
        self.lns = []
        for o, b in self.opts:
            self.lns.append(p.line("%s: %s" % (o.s(), b)))
        if self.els is not None:
            self.lns.append(p.line("else: %s" % self.els))
        p.ind -= 1
        p.line("end")

    def run(self, c):
        c.w.line = frozenset([self.line] + self.lns)
        for o, b in self.opts:
            if same(self.e.ev(c), o.ev(c)):
                raise JumpEx(c.env.block(b))
        if self.els is not None:
            raise JumpEx(c.env.block(self.els))
        raise Panic("no switch option matches")


class Teal(Stmt):
    """inline teal: lines, with meaning fn(c)"""

    def __init__(self, lines, fn):
        self.tl, self.fn = lines, fn

    def emit(self, p):
        self.line = p.line("teal:")
        p.ind += 1
        self.lns = [p.line(x) for x in self.tl]
        p.ind -= 1
        p.line("end")

    def run(self, c):
        c.w.line = frozenset([self.line] + self.lns)
        self.fn(c)


class InnerTxn(Stmt):
    """fields: [(name, index|None, expr)]"""

    def __init__(self, fields):
        self.fields = fields

    def emit(self, p):
        self.line = p.line("inner_txn:")
        p.ind += 1
        self.lns = []
        for n, i, e in self.fields:
            if n == "#":
                p.line("# " + e)
                self.lns.append(None)
                continue
            self.lns.append(p.line("%s%s: %s" % (n, "" if i is None else "[%s]" % i, e.s())))
        p.ind -= 1
        p.line("end")

    def run(self, c):
        self.at(c)
        g = c.group
        if c.macros:
            # helper subroutines at the end of the program belong to no line
            c.w.line = frozenset([self.line, 0])
        if g is None:
            c.w.emit("itxn_begin", [], [])
        elif g["n"] == 0:
            c.w.emit("itxn_begin", [], [])
        else:
            c.w.emit("itxn_next", [], [])
        if g is not None:
            g["n"] += 1
        for (n, i, e), ln in zip(self.fields, self.lns):
            if n == "#":
                continue
            c.w.line = ln
            v = e.ev(c)
            t = avm.TXN_TYPES[n]
            c.w.emit("itxn_field", [n], [U(v) if t == "U" else B(v)])
        self.at(c)
        if c.macros:
            c.w.line = frozenset([self.line, 0])
        if g is None:
            c.w.emit("itxn_submit", [], [])


class InnerGroup(Stmt):
    def __init__(self, body):
        self.body = body

    def emit(self, p):
        self.line = p.line("inner_group:")
        body_emit(p, self.body)
        p.line("end")

    def run(self, c):
        c.w.line = frozenset([self.line, 0])
        chk(c.group is None, "inner_group inside inner_group")
        c.group = {"n": 0}
        body_run(c, self.body)
        c.group = None
        c.w.line = frozenset([self.line, 0])
        c.w.emit("itxn_submit", [], [])


class Func(Stmt):
    """params: [(name, T)], rets: [T]"""

    def __init__(self, name, params, rets, body, public=None, pubargs=""):
        self.name, self.params, self.rets, self.body = name, params, rets, body
        self.public, self.pubargs = public, pubargs

    def emit(self, p):
        if self.public:
            p.line("@public(%s)" % self.pubargs)
        ps = ", ".join("%s: %s" % (n, t.text) for n, t in self.params)
        rs = ", ".join(t.text for t in self.rets)
        self.line = p.line("func %s(%s)%s:" % (self.name, ps, " " + rs if rs else ""))
        body_emit(p, self.body)
        p.line("end")

    def run(self, c):
        pass


class Block(Stmt):
    def __init__(self, name, body):
        self.name, self.body = name, body

    def emit(self, p):
        self.line = p.line("block %s:" % self.name)
        body_emit(p, self.body)
        p.line("end")

    def run(self, c):
        pass


class Router(Stmt):
    def __init__(self, names):
        self.names = names

    def emit(self, p):
        self.line = p.line("router:")
        p.ind += 1
        self.lns = [p.line(n) for n in self.names]
        p.ind -= 1
        p.line("end")

    def run(self, c):
        D = core.D
        c.w.line = frozenset([self.line] + self.lns)
        sel = avm.txn_field("ApplicationArgs", avm.group_index(), 0)
        for n in self.names:
            if D.b_eq(sel, D.b_lit(n.encode())):
                f, env = c.env.func(n)
                oc = (f.pubargs.split("=", 1)[1] if "=" in f.pubargs else "NoOp")
                if oc == "CreateApplication":
                    chk(U(avm.txn_field("ApplicationID", avm.group_index())) == 0, "ApplicationID == 0")
                else:
                    chk(U(avm.txn_field("OnCompletion", avm.group_index())) == avm.NAMED_INTS[oc], "OnCompletion")
                vals = []
                for i, (pn, t) in enumerate(f.params):
                    raw = avm.txn_field("ApplicationArgs", avm.group_index(), i + 1)
                    if t.isint:
                        chk(D.b_len(raw) <= 8, "argument length")
                        v = D.b_btoi(raw)
                    else:
                        v = raw
                    chk(fits(v, t), "argument type")
                    vals.append(v)
                rets = c.call(n, vals)
                c.w.line = frozenset([self.line] + self.lns)
                if f.rets:
                    out = D.b_lit(b"\x15\x1f\x7c\x75")
                    for t, v in zip(f.rets, rets):
                        b = D.b_itob(U(v)) if t.isint else B(v)
                        out = prim(c.w, "concat", [], [out, b])[0]
                    c.w.emit("log", [], [out])
                raise ExitEx(1)
        raise Panic("no route matches")


# ---------------------------------------------------------------- evaluation

class Env:
    def __init__(self, parent=None, owner=None):
        self.parent, self.owner = parent, owner
        self.vars, self.funcs, self.blocks = {}, {}, {}

    def declare(self, name, t):
        if name not in self.vars:
            self.vars[name] = [0, t]
        self.vars[name][1] = t
        return self.vars[name]

    def cell(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)

    def func(self, name):
        e = self
        while e is not None:
            if name in e.funcs:
                return e.funcs[name], e
            e = e.parent
        raise KeyError(name)

    def block(self, name):
        e = self
        while e is not None:
            if name in e.blocks:
                return e.blocks[name]
            e = e.parent
        raise KeyError(name)


class Ctx:
    def __init__(self, world, fuel):
        self.w = world
        self.fuel = fuel
        self.consts = {}
        self.group = None
        self.macros = False
        self.envs = {}

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise RefCut()

    def scope(self, node):
        c = self

        class S:
            def __enter__(s):
                s.old = c.env
                k = (id(node), id(c.env))
                if k not in c.envs:
                    c.envs[k] = Env(c.env, node)
                c.env = c.envs[k]

            def __exit__(s, *a):
                c.env = s.old
        return S()

    def collect(self, env, stmts):
        """functions and blocks are visible in their whole defining scope"""
        for s in stmts:
            if isinstance(s, Func):
                env.funcs[s.name] = s
            elif isinstance(s, Block):
                be = Env(env, s)
                env.blocks[s.name] = (s, be)
                self.collect(be, s.body)

    def call(self, name, vals):
        f, denv = self.env.func(name)
        k = ("f", id(f))
        if k not in self.envs:
            self.envs[k] = Env(denv, f)
            self.collect(self.envs[k], f.body)
        env = self.envs[k]
        old, oldline = self.env, self.w.line
        self.env = env
        self.w.line = f.line
        for (n, t), v in zip(f.params, vals):
            env.declare(n, t)[0] = v
        try:
            body_run(self, f.body)
            raise AssertionError("function without return")
        except ReturnEx as r:
            vals = r.vals
        self.env, self.w.line = old, oldline
        return vals


def walk(stmts):
    """all statements, at any depth"""
    for s in stmts:
        yield s
        for b in [getattr(s, "body", None), getattr(s, "els", None)] + [a[2] for a in getattr(s, "arms", [])]:
            if isinstance(b, list):
                yield from walk(b)


class Prog:
    def __init__(self, stmts):
        self.stmts = stmts

    def source(self):
        p = Printer()
        p.msgs = {}
        for s in self.stmts:
            s.emit(p)
        self.msgs = p.msgs
        self.nlines = len(p.lines)
        return "\n".join(p.lines) + "\n"

    def run(self, world, fuel=6):
        c = Ctx(world, fuel)
        c.macros = any(isinstance(s, InnerGroup) for s in walk(self.stmts))
        self.ctx = c
        c.env = Env()
        c.collect(c.env, self.stmts)
        root = c.env
        try:
            try:
                stmts = self.stmts
                while True:
                    try:
                        body_run(c, stmts)
                        return Outcome("fell", line=world.line)
                    except JumpEx as j:
                        blk, env = j.name
                        c.env = env
                        stmts = blk.body
                        c.tick()
            except ExitEx as x:
                return Outcome("exit", x.v, line=world.line)
        except Panic as p:
            return Outcome("panic", line=world.line, why=p.why)
        except RefCut:
            return Outcome("cut", line=world.line)
