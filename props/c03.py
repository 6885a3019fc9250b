"""C03 function calls"""
from .common import *

ID = "C03"
BOUNDS = {
    "arity": "0..5 parameters (thorough 0..7), 0..4 results (thorough 0..6), every split into int and bytes",
    "definitions": "nested two deep, equally named in different scopes, in blocks, any definition order",
    "call sites": "<= 4 per function, nested in arguments to depth 3; calls from every statement kind",
    "run-time values": "all uint64 / byte strings up to 4096 bytes",
    "loops": "<= 4 iterations",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "no recursion and no parameter named like a visible variable (both rejected or undefined by the language)",
    "returned expressions are evaluated last first (as compiled)",
]


def ty(k):
    return tint() if k == 0 else tbytes()


def value(k, i):
    return uin(i) if k == 0 else bin_(i)


def assign_all(names, call):
    return Asg(names, call) if len(names) > 1 or names else ExprStmt(call)


def arity(env, p, r, bits):
    """f takes p arguments and returns r values: its parameters rotated, then constants"""
    pk = [(bits >> i) & 1 for i in range(p)]
    params = [("a%d" % i, ty(pk[i])) for i in range(p)]
    rot = env.choose(max(p, 1), "rot")
    rets, rk = [], []
    for j in range(r):
        if p and j < p:
            i = (j + rot) % p
            rets.append(Var("a%d" % i))
            rk.append(pk[i])
        else:
            rets.append(Int(100 + j))
            rk.append(0)
    f = Func("f", params, [ty(k) for k in rk], [mark(7)] + [put("p%d" % i, Var("a%d" % i)) for i in range(p)] + [Return(*rets)])
    st = [Decl(ty(k), "r%d" % j) for j, k in enumerate(rk)]
    call = CallF("f", [value(pk[i], i) for i in range(p)])
    names = []
    for j in range(r):
        names.append("_" if r and env.choose(2, "u%d" % j) else "r%d" % j)
    if r == 0:
        st += [ExprStmt(call)]
    else:
        st += [Asg(names, call)]
    st += [put("r%d" % j, Var(n)) for j, n in enumerate(names) if n != "_"]
    if env.choose(2, "twice"):
        call2 = CallF("f", [value(pk[i], i + 5) for i in range(p)])
        st += [ExprStmt(call2) if r == 0 else Asg(["_" if n != "_" else "r%d" % j for j, n in enumerate(names)], call2)]
        st += [put("s%d" % j, Var("r%d" % j)) for j, n in enumerate(names) if n == "_"]
    env.run_program(prog(*(st + [Exit(Int(1)), f])))


def fn(name, body, params=("x",), rets=1, extra=()):
    return Func(name, [(q, tint()) for q in params], [tint()] * rets, body + list(extra))


def call_sites(env, site):
    """calls from every place; the rest of the caller's stack is untouched"""
    f = fn("f", [put("f", Var("x")), Return(Bin("+", Var("x"), uin(9)))])
    g = fn("g", [put("g", Var("y")), Decl(tint(), "t", CallF("f", [Var("y")])), put("gt", Var("t")), Return(Bin("*", Var("t"), Var("y")))],
           ("y",))
    h = Func("h", [], [], [mark(8), Return()])
    m = Func("m", [("u", tint()), ("v", tint())], [tint(), tint()], [put("m", Var("u")), Return(Bin("-", Var("u"), Var("v")), Var("v"))])
    F = lambda e: CallF("f", [e])
    G = lambda e: CallF("g", [e])
    a, b, c = uin(0), uin(1), uin(2)
    which = env.choose(3, "which")
    e = [F(a), G(a), F(G(F(a)))][which]
    fs = [f, g, h, m]
    k = env.choose(3, "order")
    fs = fs[k:] + fs[:k]
    pre = []
    if site == "bin":
        st = [put("r", Bin("-", Bin("+", Int(1000), e), Bin("*", F(b), c)))]
    elif site == "args":
        st = [put("r", CallF("f", [Bin("+", e, G(b))])), Decl(tint(), "p"), Decl(tint(), "q"), Asg(["p", "q"], CallF("m", [e, F(b)])),
              put("p", Var("p")), put("q", Var("q"))]
    elif site == "if":
        st = [If([(False, e, [mark(1)]), (True, F(b), [mark(2)])], [put("e", G(c))])]
    elif site == "while":
        st = [Decl(tint(), "i", Int(0)), While(False, Bin("<", Var("i"), e), [put("i", F(Var("i"))), Asg("i", Bin("+", Var("i"), Int(1))), ExprStmt(CallF("h"))])]
    elif site == "for":
        st = [Decl(tint(), "n", e), For("i", Int(0), Var("n"), [put("i", G(Var("i"))), ExprStmt(CallF("h"))])]
    elif site == "for_":
        st = [Decl(tint(), "n", a), For(None, Int(0), Var("n"), [put("i", e), ExprStmt(CallF("h"))])]
    elif site == "assert":
        st = [Assert(Bin("&&", e, F(b))), mark(3)]
    elif site == "exit":
        st = [ExprStmt(CallF("h")), Exit(Bin("+", e, G(b)))]
    elif site == "op":
        st = [put("r", Op("addw", [], [e, F(b)])) if False else put("r", Op("itob", [], [Bin("%", e, F(b))])), put("s", Concat(Op("itob", [], [e]), bin_(0), Op("itob", [], [F(b)])))]
    elif site == "index":
        st = [put("r", Fld("txn", "ApplicationArgs", ai=e)), put("s", Fld("gtxn", "Fee", e)), put("t", Fld("gtxn", "Accounts", F(b), e))]
    elif site == "itxn":
        st = [InnerTxn([("Fee", None, e), ("Amount", None, F(b))])]
    elif site == "group":
        st = [InnerGroup([ExprStmt(CallF("h")), InnerTxn([("Fee", None, e)]), If([(False, F(b), [InnerTxn([("Fee", None, G(c))])])])]), ExprStmt(CallF("h"))]
    elif site == "switch":
        st = [Switch(a, [(e, "one"), (F(b), "two")], "one")]
        fs = [Block("one", [put("o", F(c)), Exit(Int(1))]), Block("two", [ExprStmt(CallF("h")), Exit(Int(2))])] + fs
    elif site == "block":
        st = [Jump("one")]
        fs = [Block("one", [put("o", e), ExprStmt(CallF("h")), Exit(Int(1))])] + fs
    if site not in ("exit", "switch", "block"):
        st = st + [mark(50), Exit(Int(1))]
    env.run_program(prog(*(pre + st + fs)), fuel=3)


def scopes(env, k):
    """which function a name means"""
    def F(name, n, body=(), nested=(), params=()):
        return Func(name, [(q, tint()) for q in params], [tint()], [put(name, Int(n))] + list(body) + [Return(Int(n))] + list(nested))
    f1 = F("f", 1)
    if k == 0:      # a nested function hides the outer one inside its own function only
        st = [put("r", CallF("g")), put("s", CallF("f")), Exit(Int(1)), f1,
              F("g", 2, [put("gf", CallF("f"))], [F("f", 3)])]
    elif k == 1:    # same, defined in the other order
        st = [put("r", CallF("g")), put("s", CallF("f")), Exit(Int(1)),
              F("g", 2, [put("gf", CallF("f"))], [F("f", 3)]), f1]
    elif k == 2:    # in a block
        st = [put("s", CallF("f")), Jump("b"), Block("b", [put("r", CallF("f")), Exit(Int(1)), F("f", 4)]), f1]
    elif k == 3:    # two blocks with a function of the same name
        st = [If([(False, uin(0), [Jump("b")])]), Jump("c"), Block("b", [put("r", CallF("f")), Jump("c"), F("f", 4)]),
              Block("c", [put("r", CallF("f")), Exit(Int(1)), F("f", 5)])]
    elif k == 4:    # nested blocks
        st = [Jump("b"), Block("b", [put("r", CallF("f")), Jump("c"), F("f", 4), Block("c", [put("r", CallF("f")), put("g", CallF("g")), Exit(Int(1)),
              F("g", 6, [put("gf", CallF("f"))])])]), f1, F("g", 9)]
    elif k == 5:    # functions nested two deep with one name each
        st = [put("r", CallF("f")), Exit(Int(1)), F("f", 1, [put("i", CallF("g"))], [F("g", 2, [put("i", CallF("h"))], [F("h", 3, [put("i", CallF("k"))])]), F("k", 4)])]
    elif k == 6:    # siblings nested in one function
        st = [put("r", CallF("f")), Exit(Int(1)), F("f", 1, [put("i", Bin("+", CallF("g"), CallF("h")))], [F("g", 2, [put("i", CallF("h"))]), Note(""), Note("# c"), F("h", 3)])]
    elif k == 7:    # functions read variables of the enclosing scopes
        st = [Decl(tint(), "o", uin(0)), put("r", CallF("f", [uin(1)])), Asg("o", uin(2)), put("r", CallF("f", [uin(3)])), Exit(Int(1)),
              Func("f", [("x", tint())], [tint()], [put("o", Var("o")), Decl(tint(), "l", Bin("+", Var("o"), Var("x"))),
                   put("g", CallF("g", [Var("l")])), put("l", Var("l")), Return(Var("x")),
                   Func("g", [("y", tint())], [tint()], [put("l", Var("l")), Return(Bin("+", Var("y"), Var("o")))])])]
    elif k == 8:    # a block's function reads the block's variables
        st = [Decl(tint(), "o", uin(0)), Jump("b"), Block("b", [Decl(tint(), "v", uin(1)), Asg("v", Bin("+", Var("v"), CallF("f", [uin(2)]))), put("v", Var("v")), Exit(Var("o")),
              Func("f", [("x", tint())], [tint()], [put("v", Var("v")), Return(Bin("+", Var("x"), Var("o")))])])]
    elif k == 9:    # one function called from main, block and function
        st = [put("a", CallF("f")), If([(False, uin(0), [Jump("b")])], [put("n", CallF("g"))]), Exit(CallF("f")),
              Block("b", [put("b", CallF("f")), put("b2", CallF("g")), Exit(Int(1))]), f1, F("g", 2, [put("gf", CallF("f"))])]
    elif k == 10:   # decorated functions are ordinary functions
        d = F("f", 1)
        d.public = True
        st = [put("r", CallF("f")), Exit(Int(1)), d, F("g", 2)]
    elif k == 11:   # a name that a variable, function and block share
        st = [Decl(tint(), "f", uin(0)), put("r", Bin("+", Var("f"), CallF("f"))), Jump("f"), Block("f", [put("b", Var("f")), Exit(Int(1))]), F("f", 1)]
    env.run_program(prog(*st))


def tricky_returns(env, k):
    """where a function returns and what it returns"""
    c = uin(0)
    if k == 0:
        b = [Return(Str("a, b"), Bin("+", c, Int(1)))]
        rets = [tbytes(), tint()]
    elif k == 1:
        b = [Return(CallF("g", [c, Int(2)]), CallF("g", [Int(3), c]))]
        rets = [tint(), tint()]
    elif k == 2:
        b = [If([(False, c, [Return(Int(1), Int(2))])]), Return(Int(3), Bin("-", uin(1), c))]
        rets = [tint(), tint()]
    elif k == 3:
        b = [Decl(tint(), "i", Int(0)), While(False, Bin("<", Var("i"), Int(3)), [If([(False, Bin("==", Var("i"), c), [Return(Var("i"), uin(1))])]), Asg("i", Bin("+", Var("i"), Int(1)))]), Return(Int(9), Int(9))]
        rets = [tint(), tint()]
    elif k == 4:
        b = [For("i", Int(0), Int(3), [If([(False, Bin("==", Var("i"), c), [Return(Var("i"), uin(1))])])]), Return(Int(9), Int(9))]
        rets = [tint(), tint()]
    elif k == 5:
        b = [Decl(tint(), "a"), Decl(tint(), "b"), Asg(["a", "b"], Op("divmodw" if False else "addw", [], [c, uin(1)])), Return(Var("b"), Var("a"))]
        rets = [tint(), tint()]
    elif k == 6:
        b = [Return(Op("itob", [], [c]), Bin("==", c, uin(1)))]
        rets = [tbytes(), tint()]
    elif k == 7:
        b = [Return(Str("(,"), Str(")"))]
        rets = [tbytes(2), tbytes(1)]
    g = Func("g", [("x", tint()), ("y", tint())], [tint()], [put("g", Var("x")), Return(Bin("-", Var("x"), Var("y")))])
    f = Func("f", [], rets, b)
    st = [Decl(rets[0], "p"), Decl(rets[1], "q"), Asg(["p", "q"], CallF("f")), put("p", Var("p")), put("q", Var("q")), Exit(Int(1))]
    env.run_program(prog(*(st + [f, g])), fuel=4)


def chain(env):
    """results of one call are the arguments of the next; depth 3; mixed kinds"""
    k = env.choose(3, "k")
    f = Func("f", [("a", tint()), ("b", tbytes())], [tbytes(), tint()], [put("f", Var("a")), Return(Concat(Var("b"), Op("itob", [], [Var("a")])), Op("len", [], [Var("b")]))])
    g = Func("g", [("b", tbytes()), ("a", tint())], [tint()], [Decl(tbytes(), "t"), Decl(tint(), "n"), Asg(["t", "n"], CallF("f", [Var("a"), Var("b")])), put("t", Var("t")), Return(Bin("+", Var("n"), Var("a")))])
    h = Func("h", [("x", tint()), ("y", tint()), ("z", tint())], [tint()], [put("x", Var("x")), put("y", Var("y")), put("z", Var("z")), Return(Var("y"))])
    G = lambda i, e: CallF("g", [bin_(i), e])
    e = [CallF("h", [G(0, uin(0)), G(1, uin(1)), G(2, uin(2))]), G(0, CallF("h", [uin(0), G(1, uin(1)), Int(5)])),
         CallF("h", [Int(1), CallF("h", [uin(0), CallF("h", [uin(1), uin(2), uin(3)]), uin(4)]), G(0, uin(5))])][k]
    env.run_program(prog(put("r", e), put("s", Bin("-", uin(9), e)), Exit(Int(1)), h, g, f))


def many_funcs(env, n):
    """many functions, each with parameters and locals, calling the next one"""
    fs = []
    last = env.choose(2, "order")
    for i in range(n):
        body = [Decl(tint(), "l%d" % i, Bin("+", Var("p%d" % i), Int(i)))]
        if i + 1 < n:
            body += [put("c%d" % i, CallF("f%d" % (i + 1), [Var("l%d" % i)]))]
        body += [put("l%d" % i, Var("l%d" % i)), put("p%d" % i, Var("p%d" % i)), Return(Bin("+", Var("l%d" % i), Var("p%d" % i)))]
        fs.append(Func("f%d" % i, [("p%d" % i, tint())], [tint()], body))
    if last:
        fs = fs[::-1]
    env.run_program(prog(*([Decl(tint(), "a", uin(0)), put("r", CallF("f0", [Var("a")])), put("a", Var("a")), put("r", CallF("f0", [uin(1)])), put("r", CallF("f%d" % (n - 1), [Var("a")])), Exit(Int(1))] + fs)))


def not_called(env):
    """functions run only when called, wherever they are defined"""
    k = env.choose(4, "k")
    f = Func("f", [], [], [put("never", Int(1)), Return()])
    g = Func("g", [], [tint()], [put("g", Int(1)), Return(Int(2)), Func("h", [], [], [put("never", Int(2)), Return()])])
    if k == 0:
        st = [mark(1), Exit(Int(1)), f, g]
    elif k == 1:
        st = [put("x", CallF("g")), Exit(Int(1)), f, g]
    elif k == 2:
        st = [Jump("b"), f, Block("b", [mark(1), Jump("c"), Func("f2", [], [], [put("never", Int(3)), Return()]), Block("d", [put("never", Int(4)), Exit(Int(1))])]), g,
              Block("c", [put("x", CallF("g")), Exit(Int(1))])]
    else:
        st = [If([(False, uin(0), [Exit(Int(3))])]), Switch(uin(1), [(Int(1), "b")], "c"), f, Block("b", [Exit(CallF("g"))]), g, Block("c", [mark(1), Exit(Int(0))])]
    env.run_program(prog(*st))


SITES = ["bin", "args", "if", "while", "for", "for_", "assert", "exit", "op", "index", "itxn", "group", "switch", "block"]


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for p in range(0, 8 if deep else 6):
        for r in range(0, 7 if deep else 5):
            for bits in sorted({0, (1 << p) - 1, 0b1010101 & ((1 << p) - 1), 0b0110110 & ((1 << p) - 1)}):
                out.append(("arity/%d/%d/%s" % (p, r, bin(bits)[2:]), "arity", dict(p=p, r=r, bits=bits)))
    for s in SITES:
        out.append(("site/" + s, "call_sites", dict(site=s), dict(deadline=700)))
    for k in range(12):
        out.append(("scope/%d" % k, "scopes", dict(k=k)))
    for k in range(8):
        out.append(("returns/%d" % k, "tricky_returns", dict(k=k)))
    out.append(("chain", "chain", {}))
    for n in ((3, 6, 12, 25) if deep else (3, 6, 12)):
        out.append(("many/%d" % n, "many_funcs", dict(n=n)))
    out.append(("not_called", "not_called", {}))
    return out
