"""C06 boxes"""
from .common import *
from vlib import core
from vlib.lang import Struct, SField, FSet, BoxDecl, Std, T, taddr, tuint8, tuint64, tarr
from .c05 import FT, INNER, make, source, uint8_src

ID = "C06"
BOUNDS = {
    "struct": "1..3 fields (thorough 4) of int, uint8, uint64, bytes[N], uint8[N], addr and nested structs; N symbolic, total size <= 4096",
    "history": "1..3 box references (thorough 4) with equal or different keys, opened, created or referenced, with field reads and assignments "
               "and box_del/box_put/box_create/box_len in between",
    "keys, contents, values": "all (keys and previous boxes are symbolic; equality of keys is decided by the solver)",
    "places": "main program, function, loop, block, conditional",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "boxes are byte strings of up to 4096 bytes in the model (the AVM allows 32768, but fields are read as byte strings of up to 4096)",
    "key length and box reference limits of the AVM (1..64 bytes, boxes array, minimum balance) are not modelled",
    "the value assigned to a field has the field's size (guaranteed by the type check, C07)",
]
M = ["Open", "Create", ""]
MN = {"Open": "Open", "Create": "Create", "": "Box"}


def wfix(kinds):
    return [k for k in kinds]


def one(env, kinds, method):
    """one reference: every field read, one assigned, read again, raw content checked"""
    inner, S = make(env, kinds)
    j = env.choose(len(kinds), "set")
    key = [Str("key"), bin_(0), Concat(Str("a"), bin_(0))][env.choose(3, "key")]
    st = [BoxDecl(S, "b", method, key), put("key", Var("b"))]
    st += [put("r" + f, SField("b", f)) for f, _ in S.fields]
    st += [FSet("b", "f%d" % j, source(S.fields[j][1], 1))]
    st += [put("s" + f, SField("b", f)) for f, _ in S.fields]
    st += [Exit(Int(1))]
    env.run_program(Prog([Note("#pragma version 8")] + ([inner] if "inner" in kinds else []) + [S] + st))


def step(env, i, S, names, keys, where):
    """a step of a history"""
    f = S.fields[env.choose(len(S.fields), "f%d" % i)]
    b = names[env.choose(len(names), "b%d" % i)]
    k = env.choose(2, "s%d" % i)
    if k == 0:
        return [put("x%d" % i, SField(b, f[0]))]
    return [FSet(b, f[0], source(f[1], (i + 2) % 4))]


def history(env, ms, kinds, steps, between=True):
    inner, S = make(env, kinds)
    st = []
    names = []
    keys = []
    for q, m in enumerate(ms):
        keys.append(bin_(q))
        names.append("b%d" % q)
        st.append(BoxDecl(S, "b%d" % q, m, keys[q]))
        if q + 1 == len(ms) or (between and env.choose(2, "between%d" % q)):
            for z in range(steps if q + 1 == len(ms) else 1):
                st += step(env, 10 * q + z, S, names, keys, q)
    for b in names:
        st += [put("z" + b, SField(b, S.fields[-1][0])), put("k" + b, Var(b))]
    env.run_program(Prog([Note("#pragma version 8")] + ([inner] if "inner" in kinds else []) + [S] + st + [Exit(Int(1))]))


def two_structs(env, m1, m2):
    """boxes of two struct types, fields with equal names at other offsets"""
    a, b = env.sym_int("a", 1, 2000), env.sym_int("b", 1, 2000)
    A = Struct("Aa", [("x", tint()), ("y", tbytes(a)), ("z", tuint8())])
    B = Struct("Ab", [("y", tbytes(b)), ("z", tint()), ("x", tuint8())])
    k = env.choose(3, "k")
    f = "xyz"[k]
    l = "xyz"[env.choose(3, "l")]
    st = [BoxDecl(A, "p", m1, bin_(0)), BoxDecl(B, "q", m2, bin_(1)), FSet("p", f, source(A.offs[f][1], 2)), FSet("q", l, source(B.offs[l][1], 3))]
    st += [put("p" + n, SField("p", n)) for n in "xyz"] + [put("q" + n, SField("q", n)) for n in "xyz"]
    env.run_program(Prog([Note("#pragma version 8"), A, B] + st + [Exit(Int(1))]))


def native(env, m):
    """typed references and the plain box opcodes see the same boxes"""
    n = env.sym_int("n", 1, 4000)
    S = Struct("Item", [("x", tint()), ("y", tbytes(n)), ("z", tuint8())])
    k = env.choose(6, "op")
    key = bin_(1)
    o = Op
    st = []
    if k == 0:
        st = [Asg("w", o("box_del", [], [key]))]
    elif k == 1:
        st = [ExprStmt(o("box_put", [], [key, Concat(Op("itob", [], [uin(0)]), Cast(bin_(2), tbytes(n)), Op("bzero", [], [Int(1)]))]))]
    elif k == 2:
        st = [Asg("w", o("box_create", [], [key, uin(1)]))]
    elif k == 3:
        st = [Asg(["e", "w"], o("box_len", [], [key])), put("e", Var("e"))]
    elif k == 4:
        st = [Asg(["w", "c"], o("box_get", [], [key])), put("c", Var("c"))]
    elif k == 5:
        st = [put("c", o("box_extract", [], [key, uin(0), Int(3)])), Asg("w", Int(1))]
    pre = [Decl(tint(), "w"), Decl(tint(), "e"), Decl(tbytes(), "c")]
    at = env.choose(2, "at")
    mid = st + [put("w", Var("w"))]
    ref = [BoxDecl(S, "b", m, bin_(0)), FSet("b", "x", uin(2)), put("y", SField("b", "y"))]
    env.run_program(Prog([Note("#pragma version 8"), S] + pre + (mid + ref if at else ref + mid) + [put("x", SField("b", "x")), put("z", SField("b", "z")), Exit(Int(1))]))


def place(env, how, m):
    n = env.sym_int("n", 1, 4000)
    S = Struct("Item", [("x", tint()), ("y", tbytes(n)), ("z", tuint8())])
    key = bin_(0)
    use = [FSet("b", "x", uin(1)), FSet("b", "y", Cast(bin_(1), tbytes(n))), put("z", SField("b", "z")), FSet("b", "z", uint8_src(2)), put("x", SField("b", "x")),
           put("z", SField("b", "z")), put("y", SField("b", "y"))]
    fs = []
    if how == "func":
        fs = [Func("f", [("k", tbytes()), ("v", tint())], [tint()],
                   [BoxDecl(S, "b", m, Var("k")), FSet("b", "x", Var("v")), put("y", SField("b", "y")), Return(Bin("+", SField("b", "x"), SField("b", "z")))])]
        st = [Decl(tint(), "r", CallF("f", [key, uin(0)])), put("r", Var("r")), Asg("r", CallF("f", [bin_(1), Var("r")])), put("r", Var("r"))]
    elif how == "loop":
        st = [For("i", Int(0), Int(2), [BoxDecl(S, "b", m, Concat(bin_(0), Op("itob", [], [Var("i")]))), FSet("b", "x", Bin("+", Var("i"), uin(1))), put("x", SField("b", "x")), put("z", SField("b", "z"))])]
    elif how == "if":
        st = [If([(False, uin(0), [BoxDecl(S, "b", m, key)] + use)], [BoxDecl(S, "c", "", key), FSet("c", "x", uin(1)), put("x", SField("c", "x"))])]
    elif how == "block":
        st = [Decl(tbytes(), "k", key), Jump("main"), Block("main", [BoxDecl(S, "b", m, Var("k"))] + use + [Exit(SField("b", "x"))])]
        env.run_program(Prog([Note("#pragma version 8"), S] + st))
        return
    elif how == "outer":
        # the key is fixed when the reference is made
        st = [Decl(tbytes(), "k", key), BoxDecl(S, "b", m, Var("k")), Asg("k", bin_(3)), FSet("b", "x", uin(1)), put("x", SField("b", "x")), BoxDecl(S, "c", "", Var("k")),
              FSet("c", "x", uin(2)), put("b", SField("b", "x")), put("c", SField("c", "x"))]
    elif how == "expr":
        st = [BoxDecl(S, "b", m, key), FSet("b", "x", Bin("+", SField("b", "x"), SField("b", "z"))), Decl(tint(), "v", Bin("*", SField("b", "x"), uin(1))), put("v", Var("v")),
              FSet("b", "y", SField("b", "y")), put("y", Concat(SField("b", "y"), SField("b", "y"))), If([(False, Bin(">", SField("b", "x"), uin(2)), [mark(1)])], [mark(2)])]
    elif how == "params":
        # reference in main, struct copied through a function
        fs = [Func("g", [("v", tint()), ("w", tbytes(n))], [tbytes(n)], [put("v", Var("v")), Return(Var("w"))])]
        st = [BoxDecl(S, "b", m, key), BoxDecl(S, "c", m, bin_(1)), FSet("c", "y", CallF("g", [SField("b", "x"), SField("b", "y")])), put("y", SField("c", "y")), put("x", SField("b", "y"))]
    env.run_program(Prog([Note("#pragma version 8"), S] + st + [Exit(Int(1))] + fs))


def reopen(env, m1, m2):
    """the name of a reference used again for another key or method"""
    n = env.sym_int("n", 1, 4000)
    S = Struct("Item", [("x", tint()), ("y", tbytes(n)), ("z", tuint8())])
    st = [BoxDecl(S, "b", m1, bin_(0)), FSet("b", "x", uin(0)), put("z", SField("b", "z")),
          Jump("next"), Block("next", [BoxDecl(S, "d", m2, bin_(1)), FSet("d", "z", uint8_src(1)), put("x", SField("b", "x")), put("w", SField("b", "z")), put("v", SField("d", "z")), Exit(Int(1))])]
    env.run_program(Prog([Note("#pragma version 8"), S] + st))


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for m in M:
        for i, k in enumerate(FT):
            out.append(("one/%s/%s" % (MN[m], k), "one", dict(kinds=[k], method=m)))
            for z in range(7 if deep else 2):
                ks = [FT[(i + z) % 7], k, "bytes", FT[(i + 3 + 2 * z) % 7]][:4 if deep else 3]
                out.append(("one/%s/%s" % (MN[m], ",".join(ks)), "one", dict(kinds=ks, method=m)))
    for m1 in M:
        for m2 in M:
            out.append(("two/%s-%s" % (MN[m1], MN[m2]), "two_structs", dict(m1=m1, m2=m2)))
            out.append(("reopen/%s-%s" % (MN[m1], MN[m2]), "reopen", dict(m1=m1, m2=m2)))
            for ks in (["int", "bytes"],) + ((["int", "bytes", "uint8"], ["bytes", "addr"], ["uint8", "inner", "arr"]) if deep else ()):
                out.append(("history/%s-%s/%s" % (MN[m1], MN[m2], ",".join(ks)), "history", dict(ms=[m1, m2], kinds=ks, steps=2, between=deep)))
            for m3 in M:
                if deep or (m1, m2, m3) in (("", "", ""), ("Open", "", "Create"), ("", "Create", "Open")):
                    out.append(("history/%s-%s-%s" % (MN[m1], MN[m2], MN[m3]), "history", dict(ms=[m1, m2, m3], kinds=["int", "bytes"], steps=1, between=deep)))
    out.append(("history/reads", "history", dict(ms=["", ""], kinds=["int", "bytes", "uint8"], steps=1)))
    for m in M:
        out.append(("native/" + MN[m], "native", dict(m=m)))
        for how in ("func", "loop", "if", "block", "outer", "expr", "params"):
            out.append(("place/%s/%s" % (how, MN[m]), "place", dict(how=how, m=m)))
    return out
