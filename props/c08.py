"""C08 conversions"""
from .common import *
from vlib import core
from vlib.core import and_, or_, not_, MAXB, AnyVal
from vlib.lang import Std, Struct, SField, FSet, T, taddr, tuint8, tuint64, tarr, tbigint, fits, Unchecked, Cast, chk, U, B

ID = "C08"
BOUNDS = {
    "conversions": "Cast, EnsureType (one and several), UncheckedCast (one and several), Convert, ToBytes, FromBytes",
    "types": "source: int, uint8, uint64, bytes, bytes[M], addr, bigint, uint8[M], struct, results of unknown kind; target: the same",
    "sizes": "symbolic 1..4096, independent for source and target; ToBytes sizes symbolic",
    "values": "all integers and byte strings (up to 4096 bytes)",
    "places": "declaration, argument, operand, result, condition, nested conversions, conversions of calls and fields",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "a result of unknown kind has the kind that the target asks for (the size assertions of the language guide do not check kinds)",
    "bigint arguments have at most 64 bytes where the AVM asks for it",
]


def src(env, k, m):
    """(expression, type) of an arbitrary value of the kind"""
    t = {"int": tint(), "uint8": tuint8(), "uint64": tuint64(), "bytes": tbytes(), "bytesm": tbytes(m), "addr": taddr(), "bigint": tbigint(), "arr": tarr(m), "lit": None, "any": None}.get(k)
    return t


SRC = ["int", "uint8", "uint64", "bytes", "bytesm", "addr", "bigint", "arr", "struct"]
INTS = ("int", "uint8", "uint64")


def typ(k, n, st):
    return {"int": tint(), "uint8": tuint8(), "uint64": tuint64(), "bytes": tbytes(), "bytesm": tbytes(n), "addr": taddr(), "bigint": tbigint(), "arr": tarr(n), "struct": st.type}[k]


def value(t, i=0):
    """an arbitrary value of the type, as a plain expression of that type"""
    return Cast(uin(i) if t.isint else bin_(i), t) if t.text not in ("int", "bytes") else (uin(i) if t.isint else bin_(i))


class Multi(Std):
    """conversion of all values of a call"""

    def evm(self, c):
        return self.fn(c, self.args[0].evm(c))


def Ensure(e, *ts):
    def fn(c, vals):
        for v, t in zip(vals, ts):
            chk(fits(v, t), "EnsureType")
        return list(vals)
    return Multi("EnsureType", [e], [t.text for t in ts], fn)


def low(v, n):
    """low-order n bytes of the integer, big-endian"""
    D = core.D
    b = D.b_itob(U(v))
    if n <= 8:
        return D.b_extract(b, 8 - n, n)
    return D.b_concat(D.b_zero(n - 8), b)


def Convert(e, s, t):
    def fn(c, vals):
        D = core.D
        v = vals[0]
        if s.isint:
            if isinstance(t.size, int) and t.size == 0:
                return D.b_itob(U(v))
            if t.size < 8:
                chk(U(v) < 256 ** _pow(t.size), "Convert")
            return low(v, t.size)
        chk(D.b_len(B(v)) <= 8, "Convert length")
        r = D.b_btoi(B(v))
        if t.size != 8:
            chk(r < 256 ** _pow(t.size), "Convert")
        return r
    return Std("Convert", [e], [t.text], fn)


def _pow(n):
    """exponents below 8 are split into cases"""
    if isinstance(n, int):
        return n
    for k in range(1, 8):
        if n == k:
            return k
    return 8


def ToBytes(e, s, n):
    def fn(c, vals):
        D = core.D
        if s.isint:
            return low(vals[0], n)
        return None
    return Std("ToBytes", [e], [str(n)], fn)


def FromBytes(e, t):
    def fn(c, vals):
        D = core.D
        v = B(vals[0])
        if t.isint:
            chk(D.b_len(v) <= 8, "FromBytes")
            return D.b_btoi(v)
        chk(fits(v, t), "FromBytes")
        return v
    return Std("FromBytes", [e], [t.text], fn)


def Unch(e, *ts):
    return Multi("UncheckedCast", [e], [t.text for t in ts], lambda c, v: list(v))


def setup(env):
    n = env.sym_int("n", 1, 4096)
    m = env.sym_int("m", 1, 4096)
    k = env.sym_int("k", 1, 4000)
    st = Struct("Item", [("a", tint()), ("b", tbytes(k))])
    return n, m, st


def observe(t, e, name="d"):
    """declares the result with its type and shows it"""
    return [Decl(t, name, e), put(name, Var(name))]


def run(env, st, body, fs=()):
    env.run_program(Prog([Note("#pragma version 8"), st] + body + [Exit(Int(1))] + list(fs)))


def one(env, conv, s, d, how):
    n, m, st = setup(env)
    a, b = typ(s, m, st), typ(d, n, st)
    if conv == "Cast":
        mk = lambda e: Cast(e, b)
    elif conv == "Ensure":
        mk = lambda e: Ensure(e, b)
    elif conv == "Unchecked":
        mk = lambda e: Unch(e, b)
    elif conv == "Convert":
        mk = lambda e: Convert(e, a, b)
    elif conv == "FromBytes":
        mk = lambda e: FromBytes(e, b)
        if b.isint:
            b = tint()
    r = b
    fs = []
    pre = []
    v = value(a)
    if how == "expr":
        body = observe(r, mk(v))
    elif how == "var":
        body = [Decl(a, "x", v)] + observe(r, mk(Var("x"))) + [put("x", Var("x"))]
    elif how == "param":
        fs = [Func("f", [("fq", tint()), ("x", a)], [r, tint()], [Return(mk(Var("x")), Var("fq"))])]
        body = [Decl(tint(), "q"), Decl(r, "d"), Asg(["d", "q"], CallF("f", [uin(3), v])), put("d", Var("d")), put("q", Var("q"))]
    elif how == "call":
        fs = [Func("g", [], [a], [put("g", Int(1)), Return(v)])]
        body = observe(r, mk(CallF("g", [])))
    elif how == "arg":
        fs = [Func("f", [("x", r), ("fq", tint())], [tint()], [put("x", Var("x")), Return(Var("fq"))])]
        body = [Assert(CallF("f", [mk(v), uin(3)]))]
    elif how == "operand":
        body = [put("e", Bin("+", Bin("*", uin(4), Int(2)), mk(v)) if r.isint else Concat(bin_(4), mk(v), bin_(5)))]
    elif how == "cond":
        if r.isint:
            body = [If([(False, mk(v), [mark(1)])], [mark(2)]), Assert(mk(v))]
        else:
            body = [If([(False, Bin("==", mk(v), bin_(3)), [mark(1)])], [mark(2)])]
    elif how == "twice":
        body = observe(r, mk(v)) + observe(r, mk(value(a, 1)), "e") + [put("d2", Var("d"))]
    run(env, st, body, fs)


def tobytes(env, s, how):
    n, m, st = setup(env)
    a = typ(s, m, st)
    v = value(a)
    k = env.sym_int("size", 1, 4096)
    e = ToBytes(v, a, k)
    r = tbytes(k)
    if how == "expr":
        body = observe(r, e)
    elif how == "var":
        body = [Decl(a, "x", v)] + observe(r, ToBytes(Var("x"), a, k)) + [put("x", Var("x"))]
    elif how == "operand":
        body = [put("e", Concat(bin_(1), e, e))]
    elif how == "roundtrip":
        # what fits comes back
        body = observe(tint(), FromBytes(ToBytes(v, a, k), tint()))
    run(env, st, body)


def bigint_tobytes(env):
    """ToBytes(bigint, N): N bytes with the same value, or failure"""
    n = env.sym_int("size", 1, 4096)
    src = "\n".join(["#pragma version 8", "bigint x = Txn.Note", "bytes[%s] d = ToBytes(x, %s)" % (n, n), 'app_global_put("d", d)', "exit(1)"]) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    if not r.ok:
        env.fail("valid program rejected: %s" % r.err)
    w = avm.World()
    out = avm.execute(env.assemble(r.lines), w, lambda l: None, fuel=2000)
    env.trace = [("outcome", out.kind, None)]
    D = core.D
    x = avm.txn_field("Note", avm.group_index())
    if out.kind == "panic":
        env.check(D.b_len(x) > n, "failure only for bigints of more than N bytes")
        return
    v = B(w.events[0][2][1])
    env.check(D.b_len(v) == n, "size of the result")


def several(env, conv, op):
    """conversions of several values"""
    n, m, st = setup(env)
    ts = {"Ensure": lambda *t: (lambda e: Ensure(e, *t)), "Unchecked": lambda *t: (lambda e: Unch(e, *t))}[conv]
    kinds = ["int", "uint8", "bytes", "bytesm", "addr", "struct", "arr"]
    fs, pre = [], []
    if op == "func":
        a = kinds[env.choose(len(kinds), "a")]
        b = kinds[env.choose(len(kinds), "b")]
        s1, s2 = (tint() if a in INTS else tbytes()), (tint() if b in INTS else tbytes())
        fs = [Func("g", [], [s1, s2], [Return(uin(0) if s1.isint else bin_(0), uin(1) if s2.isint else bin_(1))])]
        t1, t2 = typ(a, n, st), typ(b, m, st)
        e = CallF("g", [])
        body = [Decl(t1, "p"), Decl(t2, "q"), Asg(["p", "q"], ts(t1, t2)(e)), put("p", Var("p")), put("q", Var("q"))]
    elif op == "func3":
        a = kinds[env.choose(len(kinds), "a")]
        t1, t2, t3 = tuint8(), typ(a, n, st), tbytes(m)
        e = CallF("g", [])
        fs = [Func("g", [], [tint(), tint() if t2.isint else tbytes(), tbytes()], [Return(uin(0), uin(1) if t2.isint else bin_(1), bin_(2))])]
        body = [Decl(t1, "p"), Decl(t2, "q"), Decl(t3, "r"), Asg(["p", "q", "r"], ts(t1, t2, t3)(e)), put("p", Var("p")), put("q", Var("q")), put("r", Var("r"))]
    elif op in ("typed2", "typed3"):
        # the values come with their own types, each position has its own conversion
        count = int(op[-1])
        pairs = [("uint8", "uint8"), ("int", "uint8"), ("uint8", "int"), ("int", "int"), ("bytesm", "bytesm"), ("bytes", "bytesm"), ("addr", "bytes"), ("bytes", "addr"), ("arr", "struct"),
                 ("bytesm", "arr")]
        names, s_t, d_t = "pqr", [], []
        for i in range(count):
            a, b = pairs[env.choose(len(pairs) if count == 2 else 6, "p%d" % i)]
            s_t.append(typ(a, m, st))
            d_t.append(typ(b, m if a == b else n, st))
        vals = []
        for i, t in enumerate(s_t):
            v = uin(i) if t.isint else bin_(i)
            vals.append(v if t.text in ("int", "bytes") else Cast(v, t))
        fs = [Func("g", [], s_t, [Return(*vals)])]
        if conv == "Unchecked":
            d_t = [s if s.isint else t for s, t in zip(s_t, d_t)]
        body = [Decl(t, names[i]) for i, t in enumerate(d_t)] + [Asg(list(names[:count]), ts(*d_t)(CallF("g", [])))] + [put(x, Var(x)) for x in names[:count]]
    elif op == "op":
        t1, t2 = tuint8(), [tint(), tuint8(), tuint64()][env.choose(3, "b")]
        e = Op("addw", [], [uin(0), uin(1)])
        body = [Decl(t1, "p"), Decl(t2, "q"), Asg(["p", "q"], ts(t1, t2)(e)), put("p", Var("p")), put("q", Var("q"))]
    elif op == "any":
        t1 = tint()
        b = [x for x in kinds][env.choose(len(kinds), "b")]
        t2 = typ(b, n, st)
        e = Op("app_global_get_ex", [], [uin(0), bin_(0)])
        body = [Decl(t1, "p"), Decl(t2, "q"), Asg(["p", "q"], ts(t1, t2)(e)), put("p", Var("p")), put("q", Var("q"))]
    run(env, st, body, fs)


def anykind(env, conv):
    """results of unknown kind"""
    n, m, st = setup(env)
    d = SRC[env.choose(len(SRC), "d")]
    t = typ(d, n, st)
    e = Op("app_global_get", [], [bin_(0)])
    mk = {"Cast": lambda: Cast(e, t), "Ensure": lambda: Ensure(e, t), "Unchecked": lambda: Unch(e, t)}[conv]
    run(env, st, observe(t, mk()))


def nested(env, k):
    """conversions of conversions"""
    n, m, st = setup(env)
    z = env.sym_int("z", 1, 40)
    x = [
        lambda: observe(tuint8(), Cast(Convert(bin_(0), tbytes(), tint()), tuint8())),
        lambda: observe(tbytes(n), Cast(Convert(uin(0), tint(), tbytes()), tbytes(n))),
        lambda: observe(tint(), Convert(Convert(uin(0), tint(), tbytes(z)), tbytes(z), tint())),
        lambda: observe(tbytes(n), Cast(Cast(bin_(0), tarr(m)), tbytes(n))),
        lambda: observe(tuint8(), Convert(ToBytes(uin(0), tint(), z), tbytes(z), tuint8())),
        lambda: observe(tint(), FromBytes(ToBytes(Cast(uin(0), tuint8()), tuint8(), z), tint())),
        lambda: [Decl(st.type, "s", Cast(bin_(0), st.type)), put("a", Convert(SField("s", "a"), tint(), tbytes(z))), put("b", Cast(SField("s", "b"), tbytes(n))),
                 FSet("s", "a", Cast(uin(1), tuint8())), put("s", Var("s"))],
        lambda: observe(taddr(), Cast(Concat(bin_(0), Convert(uin(0), tint(), tbytes(z))), taddr())),
        lambda: observe(tuint8(), Cast(Bin("+", Cast(uin(0), tuint8()), Cast(uin(1), tuint8())), tuint8())),
        lambda: observe(st.type, Cast(Concat(Convert(uin(0), tint(), tbytes(8)), Cast(bin_(0), tbytes(n))), st.type)),
    ][k]
    run(env, st, x())


def noop(env):
    """UncheckedCast adds no instruction"""
    n, m, st = setup(env)
    d = SRC[env.choose(len(SRC), "d")]
    t = typ(d, n, st)
    e = uin(0) if t.isint else bin_(0)
    outs = []
    for text in (e.s(), "UncheckedCast(%s, %s)" % (e.s(), t.text)):
        src = "\n".join(["#pragma version 8", "struct Item:", "    a: int", "    b: bytes[%s]" % st.fields[1][1].size, "end",
                         ("%s x = %s" % ("int" if t.isint else "bytes", text)), "exit(1)"]) + "\n"
        env.notes["source"] = src
        r = env.compile(src)
        if not r.ok:
            env.fail("valid program rejected: %s" % r.err)
        import tealish.utils
        outs.append([x for x in tealish.utils.strip_comments(r.lines) if x.strip()])
    env.check(outs[0] == outs[1], "instructions with and without UncheckedCast")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    hows = ["expr", "var", "param", "call", "arg", "operand", "cond", "twice"]
    for conv in ("Cast", "Ensure", "Unchecked"):
        for s in SRC:
            for d in SRC:
                if (s in INTS) != (d in INTS):
                    continue
                for i, how in enumerate(hows):
                    if how in ("expr",) or deep or (SRC.index(s) + SRC.index(d) + i) % 3 == 0:
                        if conv == "Unchecked" and how in ("cond", "twice"):
                            continue
                        out.append(("%s/%s-%s/%s" % (conv, s, d, how), "one", dict(conv=conv, s=s, d=d, how=how)))
        out.append(("any/" + conv, "anykind", dict(conv=conv)))
    for s in SRC:
        for d in SRC:
            if (s in INTS) != (d in INTS):
                for i, how in enumerate(hows):
                    if how == "expr" or deep or (SRC.index(s) + SRC.index(d) + i) % 4 == 0:
                        out.append(("Convert/%s-%s/%s" % (s, d, how), "one", dict(conv="Convert", s=s, d=d, how=how)))
            if s not in INTS:
                for i, how in enumerate(hows):
                    if how == "expr" or (deep and (SRC.index(s) + SRC.index(d) + i) % 2 == 0):
                        out.append(("FromBytes/%s-%s/%s" % (s, d, how), "one", dict(conv="FromBytes", s=s, d=d, how=how)))
    for s in INTS:
        for how in ("expr", "var", "operand", "roundtrip"):
            out.append(("ToBytes/%s/%s" % (s, how), "tobytes", dict(s=s, how=how)))
    out.append(("ToBytes/bigint", "bigint_tobytes", {}))
    for conv in ("Ensure", "Unchecked"):
        for op in ("func", "func3", "op", "any", "typed2", "typed3"):
            out.append(("several/%s/%s" % (conv, op), "several", dict(conv=conv, op=op)))
    for k in range(10):
        out.append(("nested/%d" % k, "nested", dict(k=k)))
    out.append(("noop", "noop", {}))
    return out
