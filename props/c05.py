"""C05 struct layout"""
from .common import *
from vlib import core
from vlib.lang import Struct, SField, FSet, Std, T, taddr, tuint8, tuint64, tarr

ID = "C05"
BOUNDS = {
    "fields": "1..4 fields (thorough 1..6) of int, uint8, uint64, bytes[N], uint8[N], addr and nested structs, chosen by selectors",
    "sizes": "every N symbolic, 1 <= N, total size <= 4096 (the largest byte string)",
    "contents": "every content of the struct and every assigned value",
    "accesses": "all fields read before and after one or two assignments; from main, function (parameter, local, result), loop",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "fields have a size (bytes without a size as a field is outside the scope)",
    "sizes above 4096 cannot occur in a running program (AVM byte-string limit)",
]

FT = ["int", "uint8", "bytes", "uint64", "arr", "addr", "inner"]
INNER = lambda: Struct("Inner", [("x", tint()), ("y", tbytes(2)), ("z", tuint8())])


def ftype(env, k, i, inner):
    if k == "int":
        return tint()
    if k == "uint8":
        return tuint8()
    if k == "uint64":
        return tuint64()
    if k == "addr":
        return taddr()
    if k == "inner":
        return inner.type
    n = env.sym_int("n%d" % i, 1, 4096)
    return tbytes(n) if k == "bytes" else tarr(n)


def make(env, kinds):
    inner = INNER()
    S = Struct("Item", [("f%d" % i, ftype(env, k, i, inner)) for i, k in enumerate(kinds)])
    env.assume(S.size <= 4096)
    return inner, S


def uint8_src(i):
    return Cast(uin(i), tuint8())


def source(t, i):
    """an arbitrary value of the type"""
    if t.text == "uint8":
        return uint8_src(i)
    if t.isint:
        return uin(i)
    return Cast(bin_(i), t)


def reads(S, var, tag=""):
    return [put(tag + f, SField(var, f)) for f, _ in S.fields]


def layout(env, kinds, how):
    if kinds is None:
        kinds = [FT[env.choose(len(FT), "t%d" % i)] for i in range(3)]
    inner, S = make(env, kinds)
    n = len(kinds)
    size = Std("SizeOf", [], ["Item"], lambda c, v: S.size)
    j = env.choose(n, "set")
    t = S.fields[j][1]
    st, fs = [], []
    if how == "main":
        st = [Decl(S.type, "s", Cast(bin_(0), S.type))] + reads(S, "s") + [FSet("s", "f%d" % j, source(t, 1))] + reads(S, "s", "b") + [put("s", Var("s")), put("n", size)]
    elif how == "two":
        k = (j + 1) % n
        st = [Decl(S.type, "s", Cast(bin_(0), S.type)), FSet("s", "f%d" % j, source(t, 1)), FSet("s", "f%d" % k, source(S.fields[k][1], 2))] + reads(S, "s") + [put("s", Var("s"))]
    elif how == "zero":
        st = [Decl(S.type, "s", Std("bzero", [], ["SizeOf(Item)"], lambda c, v: core.D.b_zero(S.size))), FSet("s", "f%d" % j, source(t, 1))] + reads(S, "s") + [put("s", Var("s"))]
    elif how == "copy":
        # from a field of another variable of the struct; the source is unchanged
        st = [Decl(S.type, "s", Cast(bin_(0), S.type)), Decl(S.type, "o", Cast(bin_(2), S.type)), FSet("s", "f%d" % j, SField("o", "f%d" % j))] + reads(S, "s") + [
            put("o", Var("o")), Asg("o", Var("s")), FSet("o", "f%d" % j, source(t, 1)), put("s", Var("s"))] + reads(S, "o", "o")
    elif how == "func":
        st = [Decl(S.type, "s", Cast(bin_(0), S.type)), Decl(S.type, "r", CallF("f", [Var("s"), Int(3)]))] + reads(S, "r") + [put("s", Var("s"))]
        fs = [Func("f", [("p", S.type), ("x", tint())], [S.type], [FSet("p", "f%d" % j, source(t, 1)), put("p", SField("p", "f%d" % j)), Return(Var("p"))])]
    elif how == "nested":
        st = [Decl(S.type, "s", Cast(bin_(0), S.type)), Decl(inner.type, "i", Cast(bin_(1), inner.type)), FSet("i", "x", uin(3)), FSet("i", "z", uint8_src(2)),
              FSet("s", "f%d" % j, Var("i") if kinds[j] == "inner" else source(t, 1))] + reads(S, "s")
        for q, k in enumerate(kinds):
            if k == "inner":
                st += [Asg("i", SField("s", "f%d" % q)), put("ix", SField("i", "x")), put("iy", SField("i", "y")), put("iz", SField("i", "z"))]
    elif how == "expr":
        # fields as operands
        st = [Decl(S.type, "s", Cast(bin_(0), S.type))]
        for q, (f, ty) in enumerate(S.fields):
            e = SField("s", f)
            st += [put("e", Bin("+", e, uin(5)) if ty.isint else Concat(e, bin_(3), e))]
            if ty.isint:
                st += [If([(False, Bin(">", e, uin(6)), [mark(q)])]), Assert(Bin("<", e, uin(7)))]
        st += [put("s", Var("s"))]
    p = Prog([Note("#pragma version 8")] + ([inner] if "inner" in kinds or how == "nested" else []) + [S] + st + [Exit(Int(1))] + fs)
    env.run_program(p)


def inspect(env, kinds):
    """inspect output and SizeOf agree with the documented layout"""
    if kinds is None:
        kinds = [FT[env.choose(len(FT), "t%d" % i)] for i in range(4)]
    inner, S = make(env, kinds)
    p = Prog([Note("#pragma version 8"), inner, S, put("a", Std("SizeOf", [], ["Item"], lambda c, v: S.size)),
              put("b", Std("SizeOf", [], ["Inner"], lambda c, v: inner.size)), Exit(Int(1))])
    src = p.source()
    env.run_program(p, src=src)
    import tealish
    try:
        out = tealish.inspect_program(src)
    except Exception as x:
        env.fail("inspect fails on a valid program: %s" % x)
    if set(out["structs"]) != {"Inner", "Item"}:
        env.fail("inspect lists %s" % sorted(out["structs"]))
    for st in (inner, S):
        o = out["structs"][st.name]
        if list(o["fields"]) != [f for f, _ in st.fields]:
            env.fail("inspect lists the fields %s" % list(o["fields"]))
        goals = [("inspect: size of " + st.name, o["size"] == st.size)]
        for f, t in st.fields:
            off = st.offs[f][0]
            goals.append(("inspect: offset of %s.%s" % (st.name, f), o["fields"][f]["offset"] == off))
            goals.append(("inspect: size of %s.%s" % (st.name, f), o["fields"][f]["size"] == t.size))
        env.check_all(goals)


def far(env):
    """a field behind a large one (immediates end at 255)"""
    last = FT[env.choose(len(FT), "t")]
    big = env.sym_int("big", 200, 300)
    inner = INNER()
    S = Struct("Item", [("a", tbytes(big)), ("b", ftype(env, last, 0, inner)), ("c", tuint8())])
    env.assume(S.size <= 4096)
    t = S.fields[1][1]
    k = env.choose(3, "k")
    st = [Decl(S.type, "s", Cast(bin_(0), S.type))] + reads(S, "s") + [FSet("s", "abc"[k], source(S.fields[k][1], 1))] + reads(S, "s") + [put("s", Var("s")), Exit(Int(1))]
    env.run_program(Prog([Note("#pragma version 8"), inner, S] + st))


def several(env):
    """several structs in one program with fields of equal names"""
    a, b, c = env.sym_int("a", 1, 1000), env.sym_int("b", 1, 1000), env.sym_int("c", 1, 1000)
    A = Struct("Aa", [("x", tbytes(a)), ("y", tint()), ("z", tbytes(b))])
    B = Struct("Ab", [("y", tint()), ("z", tbytes(c)), ("x", tuint8())])
    o = env.choose(2, "order")
    k = env.choose(3, "k")
    st = [Decl(A.type, "p", Cast(bin_(0), A.type)), Decl(B.type, "q", Cast(bin_(1), B.type))]
    st += [FSet("p", "xyz"[k], source(A.offs["xyz"[k]][1], 2)), FSet("q", "xyz"[k], source(B.offs["xyz"[k]][1], 3))]
    st += reads(A, "p") + reads(B, "q") + [put("p", Var("p")), put("q", Var("q")), put("n", Std("SizeOf", [], ["Aa"], lambda c_, v: A.size)),
                                           put("m", Std("SizeOf", [], ["Ab"], lambda c_, v: B.size))]
    env.run_program(Prog([Note("#pragma version 8")] + ([A, B] if o else [B, A]) + st + [Exit(Int(1))]))


def sizes(env):
    """SizeOf of every type"""
    n = env.sym_int("n", 1, 4096)
    t = [tint(), tuint8(), tuint64(), taddr(), tbytes(n), tarr(n)][env.choose(6, "t")]
    env.run_program(prog(put("n", Std("SizeOf", [], [t.text], lambda c, v: t.size)), Exit(Int(1))))


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for k in FT:
        out.append(("one/" + k, "layout", dict(kinds=[k], how="main")))
    for how in ("main", "two", "zero", "copy", "func", "nested", "expr"):
        for i, k in enumerate(FT):
            for m in range(len(FT)):
                if not deep and how not in ("main", "copy") and (i + m) % 3:
                    continue
                ks = [k, FT[(i + m) % 7], "bytes", FT[(i + 3 * m + 1) % 7]]
                if deep:
                    ks += [FT[(i + 2 * m + 5) % 7], "int"]
                out.append(("layout/%s/%s" % (how, ",".join(ks)), "layout", dict(kinds=ks, how=how)))
    if deep:
        out.append(("layout/all3", "layout", dict(kinds=None, how="main")))
    for i, k in enumerate(FT):
        out.append(("inspect/" + k, "inspect", dict(kinds=[k, FT[(i + 2) % 7], "bytes", FT[(i + 5) % 7]])))
    out.append(("far", "far", {}))
    out.append(("several", "several", {}))
    out.append(("sizes", "sizes", {}))
    return out
