"""C04 scratch slots"""
from .common import *
from vlib.lang import Struct, SField, FSet, BoxDecl, arg

ID = "C04"
BOUNDS = {
    "scopes": "main, blocks nested two deep and side by side, functions in main / blocks / functions, for and while loops, "
              "if bodies; every definition order of blocks and functions",
    "variables": "<= 3 declarations per scope chosen by selectors; up to 260 variables in main, function, block and mixed",
    "kinds": "int, bytes, struct, box reference, loop variable, parameter, inner group flag",
    "run-time values": "all (each assignment gets an arbitrary value of its own)",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "a variable is read only after it was assigned; functions do not assign variables of enclosing scopes; no recursion",
]


class Gen:
    def __init__(self, env):
        self.env = env
        self.n = 0

    def val(self):
        """an arbitrary uint64 of its own"""
        self.n += 1
        return Fld("txn", "Applications", ai=Int(self.n % 256))

    def bval(self):
        self.n += 1
        return arg(self.n % 256)

    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def read(self, vis):
        return [put(v, Var(v)) for v in vis]

    def items(self, tag, kinds, vis, calls=(), n=2):
        """n statements that declare variables; every visible variable is read after each"""
        out = []
        for i in range(n):
            k = kinds[self.env.choose(len(kinds), "%s%d" % (tag, i))]
            if k == "decl":
                v = self.name()
                out.append(Decl(tint(), v, self.val()))
                vis.append(v)
            elif k == "later":
                v = self.name()
                out += [Decl(tint(), v), mark(1), Asg(v, self.val())]
                vis.append(v)
            elif k == "for":
                v, w = self.name("i"), self.name()
                out.append(For(v, Int(0), Int(2), [Decl(tint(), w, self.val())] + self.calls(calls) + self.read(vis + [v, w])))
            elif k == "forfor":
                v, u, w = self.name("i"), self.name("j"), self.name()
                out.append(For(v, Int(0), Int(2), [For(u, Int(5), Int(6), [Decl(tint(), w, self.val())] + self.calls(calls) + self.read(vis + [v, u, w]))]
                               + self.read([v])))
            elif k == "forsame":
                v = self.name("i")
                out += [For(v, Int(0), Int(1), self.calls(calls) + self.read(vis + [v])), For(v, Int(3), Int(4), self.read(vis + [v])),
                        Decl(tint(), v, self.val())]
                vis.append(v)
            elif k == "while":
                v, w = self.name("c"), self.name()
                out += [Decl(tint(), v, Int(0)),
                        While(False, Bin("<", Var(v), Int(2)), [Decl(tint(), w, self.val()), Asg(v, Bin("+", Var(v), Int(1)))] + self.calls(calls)
                              + self.read(vis + [v, w]))]
                vis.append(v)
            elif k == "if":
                v, w = self.name(), self.name()
                out += [Decl(tint(), v, self.val()), If([(False, uin(0), [Decl(tint(), w, self.val())] + self.calls(calls) + self.read(vis + [v, w])),
                        (False, uin(1), self.read(vis + [v]))], [mark(2)] + self.read(vis + [v]))]
                vis.append(v)
            elif k == "call":
                out += self.calls(calls)
            elif k == "multi":
                v, w = self.name(), self.name()
                out += [Decl(tint(), v), Decl(tbytes(), w), Asg([v, w], CallF("two", []))]
                vis += [v, w]
        return out + self.read(vis)

    def calls(self, calls):
        return [put("c", CallF(f, [self.val() for _ in range(a)])) for f, a in calls]


def F(name, params, body, ret, nested=()):
    return Func(name, [(p, tint()) for p in params], [tint()], body + [Return(ret)] + list(nested))


TWO = Func("two", [], [tint(), tbytes()], [Return(uin(14), bin_(9))])


def shape(env, s, kinds, n):
    """scope arrangements; functions are called while the variables of every
    enclosing and calling scope are alive"""
    g = Gen(env)
    fpar = lambda nm: ["%sp%d" % (nm, i) for i in range(2)]

    def func(nm, vis, kinds, calls=(), nested=(), n=1):
        ps = fpar(nm)
        loc = list(ps)
        body = g.items("f" + nm, kinds, loc, calls, n)
        return F(nm, ps, body + g.calls(calls) + g.read(loc + list(vis)), Var(loc[0]), nested)
    if s == "main":
        vis = []
        st = g.items("m", kinds, vis, [("fa", 2)], n) + g.calls([("fa", 2)]) + g.read(vis) + [Exit(Int(1)), func("fa", [], ["decl", "for"]), TWO]
    elif s == "func":
        vis = []
        st = g.items("m", ["decl", "if"], vis, [], 1) + g.calls([("fa", 2)]) + g.read(vis) + [Exit(Int(1)),
             func("fa", vis, kinds, [("fb", 2)], n=n), func("fb", [], ["decl", "for"]), TWO]
    elif s == "func-rev":
        vis = []
        fb = func("fb", [], ["decl", "for"])
        st = g.items("m", ["decl", "if"], vis, [], 1) + g.calls([("fa", 2)]) + g.read(vis) + [Exit(Int(1)), fb,
             func("fa", vis, kinds, [("fb", 2)], n=n), TWO]
    elif s == "block":
        vis = []
        a = g.items("m", ["decl", "for"], vis, [], 1)
        bv = list(vis)
        b = g.items("b", kinds, bv, [("fa", 2)], n)
        cv = list(bv)
        c = g.items("c", ["decl", "for"], cv, [("fa", 2)], 1)
        st = a + [Jump("b"), Block("b", b + [Jump("c"), Block("c", c + g.calls([("fb", 2)]) + g.read(cv) + [Exit(Int(1))]),
                  func("fb", bv, ["decl"])]), func("fa", vis, ["decl", "for"]), TWO]
    elif s == "block-rev":
        # the functions come first in the text
        vis = []
        a = g.items("m", ["decl", "for"], vis, [], 1)
        fa = func("fa", vis, ["decl", "for"])
        bv = list(vis)
        b = g.items("b", kinds, bv, [("fa", 2)], n)
        fb = func("fb", bv, ["decl"], [("fa", 2)])
        cv = list(bv)
        c = g.items("c", ["decl", "for"], cv, [("fa", 2)], 1)
        st = a + [Jump("b"), fa, Block("b", b + [Jump("c"), fb, Block("c", c + g.calls([("fb", 2)]) + g.read(cv) + [Exit(Int(1))])]), TWO]
    elif s == "siblings":
        vis = []
        a = g.items("m", ["decl"], vis, [], 1)
        bv, cv = list(vis), list(vis)
        b = g.items("b", kinds, bv, [("fa", 2)], n) + g.calls([("fb", 2)])
        c = g.items("c", kinds, cv, [("fa", 2)], 1)
        st = a + [Jump("b"), Block("b", b + g.read(bv) + [Jump("c"), func("fb", bv, ["decl"])]), func("fa", vis, ["decl", "for"]),
                  Block("c", c + g.calls([("fa", 2)]) + g.read(cv) + [Exit(Int(1))]), TWO]
    elif s == "nested":
        # functions nested in functions
        vis = []
        a = g.items("m", ["decl", "for"], vis, [], 1)
        loc = fpar("fa")
        body = g.items("fa", kinds, loc, [("fc", 2)], n)
        fb = func("fb", loc + vis, ["decl", "for"], [("fc", 2)])
        fa = F("fa", fpar("fa"), body + g.calls([("fb", 2), ("fc", 2)]) + g.read(loc), Var(loc[0]), [fb])
        fc = func("fc", vis, ["decl"])
        st = a + g.calls([("fa", 2), ("fc", 2)]) + g.read(vis) + [Exit(Int(1))] + ([fa, fc] if env.choose(2, "o") else [fc, fa]) + [TWO]
    elif s == "loopcall":
        vis = []
        a = g.items("m", ["decl"], vis, [], 1)
        st = a + [For("k", Int(0), Int(2), g.items("l", kinds, vis, [("fa", 2)], n) + g.read(["k"]))] + [Exit(Int(1)), func("fa", [], ["decl", "for"]), TWO]
        # names of the loop body do not exist after the loop
    env.run_program(prog(*st), fuel=30)


def count_limit(env, place, n):
    """n variables alive together: all keep their values or the program is rejected"""
    g = Gen(env)
    names = ["v%d" % i for i in range(n)]
    decl = [Decl(tint(), v, g.val()) for v in names]
    read = [put(v, Var(v)) for v in names]
    if place == "main":
        st = decl + read + [Exit(Int(1))]
    elif place == "maincall":
        st = decl + [put("c", CallF("f", [uin(0), uin(1)]))] + read + [Exit(Int(1)), F("f", ["x", "y"], [Decl(tint(), "z", uin(3)), put("x", Var("x")), put("y", Var("y"))], Var("z"))]
    elif place == "func":
        st = [Decl(tint(), "a", uin(5)), put("c", CallF("f", [])), put("a", Var("a")), Exit(Int(1)), F("f", [], decl + read, Var("v0"))]
    elif place == "params":
        st = [Decl(tint(), "a", uin(5)), put("c", CallF("f", [g.val() for _ in names])), put("a", Var("a")), Exit(Int(1)), F("f", names, read, Var("v0"))]
    elif place == "block":
        h = n // 2
        st = decl[:h] + [Jump("b"), Block("b", decl[h:] + read + [Exit(Int(1))])]
    elif place == "funcs":
        st = decl[:n // 2] + [put("c", CallF("f", [])), put("c", CallF("h", []))] + read[:n // 2] + [Exit(Int(1)),
             F("f", [], decl[n // 2:-3] + [put("c", CallF("h", []))] + read[n // 2:-3], Var(names[n // 2])), F("h", [], decl[-3:] + read[-3:], Var(names[-1]))]
    elif place == "group":
        st = decl + [InnerGroup([InnerTxn([("Fee", None, Var("v0"))]), ExprStmt(CallF("f", []))])] + read + [Exit(Int(1)),
             Func("f", [], [], [Decl(tint(), "z", uin(3)), InnerTxn([("Fee", None, Var("z"))]), put("z", Var("z")), Return()])]
    elif place == "fors":
        st = decl + [For("i", Int(0), Int(2), [For("j", Int(0), Int(2), [put("i", Var("i")), put("j", Var("j"))])])] + read + [Exit(Int(1))]
    elif place == "blockfunc":
        # function slots first, then a block with many variables
        k = n - 60
        st = [Jump("b"), F("f", [], decl[:60] + read[:60], Var("v0")), Block("b", decl[60:] + [put("c", CallF("f", []))] + read[60:] + [Exit(Int(1))])]
    p = prog(*st)
    src = p.source()
    env.notes["source"] = src
    r = env.compile(src)
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("%s instead of a compile error: %s" % (r.kind, r.err))
        if n <= 190:
            env.fail("valid program rejected: %s: %s" % (r.kind, r.err))
        env.reached()
        return
    env.run_program(p, fuel=12, src=src, avm_fuel=20000)


def kinds_mix(env):
    """struct, box, bytes and group variables among ordinary ones"""
    S = Struct("Item", [("a", tint()), ("b", tint())])
    g = Gen(env)
    order = env.choose(3, "order")
    inblock = env.choose(2, "blk")
    d = [Decl(tint(), "n", g.val()), Decl(S.type, "s", Cast(bin_(0), S.type)), Decl(tbytes(), "b", bin_(1)), Decl(tbytes(3), "c", Str("xyz"))]
    d = d[order:] + d[:order]
    box = [BoxDecl(S, "x", "", bin_(2)), Decl(tint(), "m", g.val())]
    use = [FSet("s", "b", uin(3)), put("f", CallF("f", [Var("n")])), put("sa", SField("s", "a")), put("sb", SField("s", "b")), put("n", Var("n")),
           put("b", Var("b")), put("c", Var("c")), put("m", Var("m")),
           InnerGroup([InnerTxn([("Fee", None, Var("n"))]), InnerTxn([("Fee", None, CallF("f", [Var("m")]))])]), put("n2", Var("n")), put("m2", Var("m")), put("b2", Var("b"))]
    f = F("f", ["p"], [Decl(S.type, "fs", Cast(bin_(3), S.type)), Decl(tint(), "q", g.val()), put("fa", SField("fs", "a")), put("p", Var("p"))], Var("q"))
    body = d + box + use + [Exit(Int(1))]
    st = [Jump("blk"), Block("blk", body), f] if inblock else body + [f]
    env.run_program(Prog([Note("#pragma version 8"), S] + st))


def reassign(env, n):
    """assignments change the named variable only, in any order, from other variables"""
    g = Gen(env)
    names = ["a", "b", "c"]
    st = [Decl(tint(), v, g.val()) for v in names]
    for i in range(n):
        x = names[env.choose(3, "x%d" % i)]
        y = names[env.choose(3, "y%d" % i)]
        st += [Asg(x, Bin("|", Var(y), g.val()) if i == 1 else Var(y))]
    st += [put(v, Var(v)) for v in names]
    where = env.choose(3, "where")
    if where == 0:
        p = st + [Exit(Int(1))]
    elif where == 1:
        p = [put("r", CallF("f")), Exit(Int(1)), Func("f", [], [tint()], st + [Return(Var("b"))])]
    else:
        p = [Jump("z"), Block("z", st + [Exit(Int(1))])]
    env.run_program(prog(*p))


KINDS = ["decl", "later", "for", "forfor", "forsame", "while", "if", "call", "multi"]
SHAPES = ["main", "func", "func-rev", "block", "block-rev", "siblings", "nested", "loopcall"]


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for s in SHAPES:
        for i in range(0, len(KINDS)):
            # the first statement is fixed per job by rotation; the rest is chosen
            ks = KINDS if deep else [KINDS[i], KINDS[(i + 4) % len(KINDS)], KINDS[(i + 6) % len(KINDS)]]
            if s == "loopcall":
                ks = [k for k in ks if k != "forsame"]
            if deep and i:
                continue
            out.append(("shape/%s/%d" % (s, i), "shape", dict(s=s, kinds=ks, n=3 if deep else 2)))
    for p in ("main", "maincall", "func", "block", "funcs", "group", "fors", "blockfunc"):
        for n in (80, 150, 190, 200, 201, 202, 203, 254, 255, 256, 257, 300):
            if not deep and n in (80, 203, 300):
                continue
            out.append(("count/%s/%d" % (p, n), "count_limit", dict(place=p, n=n)))
    for n in (10, 40, 80):
        out.append(("count/params/%d" % n, "count_limit", dict(place="params", n=n)))
    out.append(("kinds", "kinds_mix", {}))
    out.append(("reassign", "reassign", dict(n=3 if deep else 2)))
    return out
