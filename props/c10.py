"""C10 function router"""
from .common import *
from vlib import core, avm
from vlib.lang import Router, Struct, taddr, tuint8, tuint64, tarr, tbigint

ID = "C10"
BOUNDS = {
    "routes": "1..6 routed functions in every listed order, plus public functions that are not routed; 0..5 parameters and 0..4 results",
    "types": "every parameter and result type (int, uint8, uint64, bytes, bytes[N], addr, bigint, uint8[N], struct); N symbolic in 1..4096",
    "OnCompletion": "NoOp (default and written), OptIn, CloseOut, ClearState, UpdateApplication, DeleteApplication, CreateApplication",
    "run-time values": "every application argument (content and length), every OnCompletion, ApplicationID and other field",
    "places": "router in main, in a block, behind a condition; routed functions that call each other, loop, fail",
    "decorators": "6 spellings of OnCompletion options x 25 parameter texts, non-public and unknown routes",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "a first argument is compared as a byte string (match); a group member without application arguments fails when argument 0 is read",
]
OCS = ["", "OnCompletion=NoOp", "OnCompletion=OptIn", "OnCompletion=CloseOut", "OnCompletion=ClearState", "OnCompletion=UpdateApplication",
       "OnCompletion=DeleteApplication", "OnCompletion=CreateApplication"]
KINDS = ["int", "uint8", "uint64", "bytes", "bytesN", "addr", "bigint", "arr", "struct"]


def mktype(env, k, i, S):
    if k == "int":
        return tint()
    if k == "uint8":
        return tuint8()
    if k == "uint64":
        return tuint64()
    if k == "bytes":
        return tbytes()
    if k == "addr":
        return taddr()
    if k == "bigint":
        return tbigint()
    if k == "struct":
        return S.type
    n = env.sym_int("n%d" % i, 1, 4096)
    return tbytes(n) if k == "bytesN" else tarr(n)


def struct():
    return Struct("Item", [("x", tint()), ("y", tbytes(5)), ("z", tuint8())])


def value(t, i):
    """an arbitrary value of the type"""
    if t.text == "uint8":
        return Cast(uin(i), tuint8())
    if t.isint:
        return uin(i)
    if t.text == "bytes":
        return bin_(i)
    return Cast(bin_(i), t)


def P(S, *stmts):
    return Prog([Note("#pragma version 8")] + ([S] if S else []) + list(stmts))


def one(env, params, rets, oc=0):
    """one route: parameters bound by position, results logged in order"""
    S = struct()
    ps = [("p%d" % i, mktype(env, k, i, S)) for i, k in enumerate(params)]
    rs = [mktype(env, k, 10 + i, S) for i, k in enumerate(rets)]
    body = [put("p", Var(n)) for n, _ in ps]
    body += [Return(*[value(t, i) for i, t in enumerate(rs)])]
    env.run_program(P(S, Router(["go"]), Func("go", ps, rs, body, "go", OCS[oc])))


def passthrough(env, kinds):
    """parameters returned in another order"""
    S = struct()
    ps = [("p%d" % i, mktype(env, k, i, S)) for i, k in enumerate(kinds)]
    n = len(ps)
    k = env.choose(n, "rot")
    order = ps[k:] + ps[:k]
    env.run_program(P(S, Router(["go"]), Func("go", ps, [t for _, t in order], [Return(*[Var(x) for x, _ in order])], "go")))


def fresh(env, n, rets):
    """n parameters chosen by selectors"""
    S = struct()
    ks = [KINDS[env.choose(len(KINDS), "k%d" % i)] for i in range(n)]
    ps = [("p%d" % i, mktype(env, k, i, S)) for i, k in enumerate(ks)]
    rs = [mktype(env, KINDS[env.choose(len(KINDS), "r%d" % i)], 10 + i, S) for i in range(rets)]
    env.run_program(P(S, Router(["go"]), Func("go", ps, rs, [put("p", Var(x)) for x, _ in ps] + [Return(*[value(t, i) for i, t in enumerate(rs)])], "go")))


NAMES = ["alpha", "alphabet", "al", "beta_2", "g", "omega"]



def routes(env, n, where):
    """which function runs, with which completion; functions defined in another order, one public but not routed"""
    ocs = [env.choose(len(OCS), "oc0")] + [(3 * i + 1) % len(OCS) for i in range(1, n)]
    rot = env.choose(n, "rot")
    names = NAMES[:n]
    fs = []
    for i, (nm, oc) in enumerate(zip(names, ocs)):
        ps = [("a%d" % j, [tint(), tbytes(), tint()][(i + j) % 3]) for j in range(i % 4)]
        rs = [[tbytes(), tint()][(i + j) % 2] for j in range((i + 1) % 3)]
        body = [mark(i)] + [put("p", Var(x)) for x, _ in ps] + [Return(*[value(t, j + i) for j, t in enumerate(rs)])]
        fs.append(Func(nm, ps, rs, body, nm, OCS[oc]))
    fs = fs[rot:] + fs[:rot]
    extra = [Func("hidden", [], [], [mark(77), Return()], "hidden", "OnCompletion=OptIn"), Func("plain", [], [tint()], [mark(78), Return(Int(3))])]
    if where == "main":
        p = P(None, mark(80), Router(names), *(extra[:1] + fs + extra[1:]))
    elif where == "block":
        p = P(None, Decl(tint(), "v", uin(0)), Jump("blk"), Block("blk", [put("v", Var("v")), Router(names)]), *(fs + extra))
    elif where == "inblock":
        p = P(None, Jump("blk"), Block("blk", [Router(names)] + fs), *extra)
    elif where == "cond":
        p = P(None, If([(False, Bin("==", Fld("txn", "NumAppArgs"), Int(0)), [mark(81), Exit(Int(1))])]), Router(names), *(fs + extra))
    env.run_program(p)


def completions(env, oc, n):
    """each completion with and without parameters, results and neighbours"""
    f = Func("one", [("x", tint())] * (n > 0), [tint()] * (n > 1), [mark(1), Return(*([Var("x")] if n > 1 else []))], "one", OCS[oc])
    g = Func("two", [], [], [mark(2), Return()], "two", OCS[(oc + 1) % len(OCS)])
    env.run_program(P(None, Router(["one", "two"] if env.choose(2, "order") else ["two", "one"]), f, g))


def calls(env, k):
    """routed functions that call others, loop, fail, use variables and inner functions"""
    if k == 0:
        p = P(None, Router(["f", "g"]),
              Func("f", [("x", tint())], [tint()], [Return(Bin("+", CallF("g", [Var("x")]), CallF("h", [Var("x"), uin(0)])))], "f"),
              Func("g", [("y", tint())], [tint()], [put("y", Var("y")), Return(Bin("*", Var("y"), Int(2)))], "g", OCS[2]),
              Func("h", [("y", tint()), ("z", tint())], [tint()], [Return(Bin("-", Var("y"), Var("z")))]))
    elif k == 1:
        p = P(None, Router(["f"]),
              Func("f", [("n", tint()), ("b", tbytes())], [tbytes(), tint()], [
                  Decl(tint(), "s", Int(0)),
                  For("i", Int(0), Var("n"), [Asg("s", Bin("+", Var("s"), uin(0))), put("s", Var("s"))]), Return(Var("b"), Var("s"))], "f"))
    elif k == 2:
        p = P(None, Router(["f", "g"]),
              Func("f", [("n", tint())], [tint()], [If([(False, Bin("<", Var("n"), uin(0)), [Return(Int(1))])], [Err()]), Return(Int(2))], "f"),
              Func("g", [], [], [Assert(uin(1)), If([(False, uin(2), [Exit(Int(0))])]), Return()], "g"))
    elif k == 3:
        # values set before the router are visible in the routed functions only as state; the variables are kept in the block
        p = P(None, Decl(tint(), "v", uin(0)), put("v", Var("v")), Jump("m"),
              Block("m", [Router(["f"]), Func("f", [("a", tint())], [tint()], [Return(Bin("+", Var("a"), Int(1)))], "f")]))
    elif k == 4:
        # two decorators' worth of functions with equal parameter names and different types
        p = P(None, Router(["f", "g"]),
              Func("f", [("a", tint()), ("b", tbytes())], [tbytes()], [put("a", Var("a")), Return(Var("b"))], "f"),
              Func("g", [("a", tbytes()), ("b", tint())], [tint()], [put("a", Var("a")), Return(Var("b"))], "g"))
    elif k == 5:
        # several results of equal kind
        p = P(None, Router(["f"]), Func("f", [("a", tint()), ("b", tint())], [tint(), tint(), tint(), tbytes()],
                                        [Return(Var("b"), Bin("-", Var("a"), Var("b")), Var("a"), bin_(0))], "f"))
    elif k == 6:
        # routed function in the block hides the one of the program
        p = P(None, Jump("m"), Block("m", [Router(["f"]), Func("f", [("a", tint())], [], [put("in", Var("a")), Return()], "f", OCS[2])]),
              Func("f", [("a", tbytes())], [], [put("out", Var("a")), Return()], "f"))
    elif k == 7:
        # routers in two blocks that share a function
        p = P(None, If([(False, uin(0), [Jump("a")])]), Jump("b"), Block("a", [Router(["f", "g"])]), Block("b", [Router(["g", "f"])]),
              Func("f", [("a", tint())], [], [put("f", Var("a")), Return()], "f"), Func("g", [("a", tint())], [tint()], [put("g", Var("a")), Return(Var("a"))], "g", OCS[1]))
    env.run_program(p)


def pars(text):
    """documented: nothing, or one OnCompletion option"""
    t = text.strip()
    if t == "":
        return "NoOp"
    k, eq, v = t.partition("=")
    if not eq or k.strip() != "OnCompletion":
        return None
    v = v.strip()
    return v if "OnCompletion=" + v in OCS[1:] else None


TEXTS = ["", " ", "OnCompletion=%s", "OnCompletion = %s", " OnCompletion=%s ", "OnCompletion =%s", "OnCompletion= %s", "onCompletion=%s", "Oncompletion=%s",
         "On_Completion=%s", "OnCompletion:%s", "OnCompletion", "%s", "OnCompletion=", "OnCompletion==%s", "x=1", "OnCompletion=%s, x=1",
         "OnCompletion=%s|OptIn", "OnCompletion=%s,OptIn", "x=1, OnCompletion=%s", '"OnCompletion=%s"', "OnCompletion=%sX", "OnCompletion=X%s",
         "OnCompletion=NoOp=%s", "OnCompletion=0", "OnCompletion=5"]
WORDS = ["NoOp", "UpdateApplication", "CreateApplication", "optin", "Foo", "pay"]


def decorator(env, i):
    """a parameter text either has its documented meaning or is rejected"""
    w = WORDS[env.choose(len(WORDS), "w")]
    text = TEXTS[i] % w if "%s" in TEXTS[i] else TEXTS[i]
    want = pars(text)
    f = Func("f", [], [], [mark(1), Return()], "f", text if want is None else "OnCompletion=" + want)
    g = Func("g", [], [], [mark(2), Return()], "g", "")
    p = P(None, Router(["g", "f"]), f, g)
    src = p.source()
    if want is None:
        env.notes["source"] = src
        r = env.compile(src)
        env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
        if r.ok:
            env.fail("@public(%s) is accepted: it has no documented meaning" % text)
        if r.kind not in ("ParseError", "CompileError"):
            env.fail("@public(%s) crashes the compiler: %s: %s" % (text, r.kind, r.err))
        env.reached()
    else:
        src2 = src.replace("@public(OnCompletion=%s)" % want, "@public(%s)" % text, 1)
        assert src2 != src or text == "OnCompletion=" + want
        env.run_program(p, src=src2)


BAD = [
    # (routes, functions)
    (["f"], "func f():\n    return\nend"),
    (["f", "h"], "@public()\nfunc f():\n    return\nend\nfunc h():\n    return\nend"),
    (["h", "f"], "@public()\nfunc f():\n    return\nend\nfunc h():\n    return\nend"),
    (["nope"], "@public()\nfunc f():\n    return\nend"),
    (["f", "nope"], "@public()\nfunc f():\n    return\nend"),
    (["f"], "@private()\nfunc f():\n    return\nend"),
    (["f"], "block m:\n    exit(1)\n    @public()\n    func f():\n        return\n    end\nend"),
    (["f", "f"], "@public()\nfunc f():\n    return\nend"),
    (["f "], "func f():\n    return\nend"),
    (["f()"], "@public()\nfunc f():\n    return\nend"),
    (["f, f"], "@public()\nfunc f():\n    return\nend"),
    (["g"], "@public()\nfunc f():\n    @public()\n    func g():\n        return\n    end\n    return\nend"),
    (["f"], "block f:\n    exit(1)\nend"),
    (["f"], "@public\nfunc f():\n    return\nend"),
    (["f"], "@public() func f():\n    return\nend"),
    (["f"], "@public()\nexit(1)"),
    (["f"], "@public()\nblock f:\n    exit(1)\nend"),
    ([""], "@public()\nfunc f():\n    return\nend"),
]


def rejected(env, i):
    rs, body = BAD[i]
    src = "#pragma version 8\nrouter:\n%send\n%s\n" % ("".join("    %s\n" % r for r in rs), body)
    if env.choose(2, "block"):
        src = "#pragma version 8\njump main\nblock main:\n%s\nend\n%s\n" % ("\n".join("    " + x for x in (["router:"] + ["    " + r for r in rs] + ["end"])), body)
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if r.ok:
        env.fail("router with a route that names no public function is accepted")
    if r.kind not in ("ParseError", "CompileError"):
        env.fail("bad router crashes the compiler: %s: %s" % (r.kind, r.err))
    env.reached()


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for k in KINDS:
        out.append(("one/p/" + k, "one", dict(params=[k], rets=[])))
        out.append(("one/r/" + k, "one", dict(params=[], rets=[k])))
        for k2 in KINDS:
            out.append(("one/pp/%s,%s" % (k, k2), "one", dict(params=[k, k2], rets=[])))
            out.append(("one/rr/%s,%s" % (k, k2), "one", dict(params=[], rets=[k, k2])))
            if deep:
                for k3 in KINDS:
                    out.append(("one/pprr/%s,%s,%s" % (k, k2, k3), "one", dict(params=[k, k2, k3], rets=[k3, k])))
    for n in (3, 4, 5):
        for s in range(9):
            ks = [KINDS[(s + 2 * j) % 9] for j in range(n)]
            out.append(("many/%d/%d" % (n, s), "one", dict(params=ks, rets=ks[::-1][:4])))
            if n < 5:
                out.append(("pass/%d/%d" % (n, s), "passthrough", dict(kinds=ks)))
    if deep:
        out.append(("fresh/2/2", "fresh", dict(n=2, rets=2)))
    for oc in range(len(OCS)):
        for n in range(3):
            out.append(("oc/%d/%d" % (oc, n), "completions", dict(oc=oc, n=n)))
    for n in range(1, 7 if deep else 6):
        for w in ("main", "block", "inblock", "cond"):
            out.append(("routes/%d/%s" % (n, w), "routes", dict(n=n, where=w)))
    for k in range(8):
        out.append(("calls/%d" % k, "calls", dict(k=k)))
    for i in range(len(TEXTS)):
        out.append(("decorator/%d" % i, "decorator", dict(i=i)))
    for i in range(len(BAD)):
        out.append(("rejected/%d" % i, "rejected", dict(i=i)))
    return out
