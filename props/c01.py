"""C01 structured control flow"""
from .common import *

ID = "C01"
BOUNDS = {
    "if/elif chains": "1..4 conditions (thorough 1..6), every combination of not, with and without else",
    "nesting": "two constructs deep (thorough three), <= 3 statements per body",
    "loop iterations": "<= 5 per run in total (beyond: outside the bound, prefixes compared)",
    "run-time values": "all uint64",
    "places": "main program, block, function body, function nested in a block",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "'for _' inside another 'for _' and inside functions is a recorded finding (see known_findings.json); other "
    "jobs place 'for _' only where the surplus stack value is not observable",
]

CONTAINERS = ["main", "block", "func", "blockfunc"]


def wrap(kind, stmts, after=None):
    """put statements into a container; the program ends by exiting with 1"""
    tail = [mark(99)] + (after or [])
    if kind == "main":
        return prog(*(stmts + tail + [Exit(Int(1))]))
    if kind == "block":
        return prog(Jump("blk"), Note(""), Block("blk", stmts + tail + [Exit(Int(1))]))
    if kind == "func":
        return prog(ExprStmt(CallF("work")), mark(98), Exit(Int(1)), Func("work", [], [], stmts + tail + [Return()]))
    if kind == "blockfunc":
        return prog(Jump("blk"), Block("blk", [
            ExprStmt(CallF("work")), mark(97), Exit(Int(1)), Func("work", [], [], stmts + tail + [Return()])]))


def conds(k):
    """condition shapes over inputs; all 0 / non-0 outcomes reachable"""
    return [
        lambda i: uin(i),
        lambda i: Bin("<", uin(i), Int(10)),
        lambda i: Un("!", uin(i)),
        lambda i: Bin("==", uin(i), uin(i + 1)),
        lambda i: Bin("&&", uin(i), uin(i + 1)),
        lambda i: Bin("||", Bin(">", uin(i), Int(3)), Un("!", uin(i + 1))),
    ][k]


def if_chain(env, arms, els, container):
    cs = []
    for i in range(arms):
        neg = env.choose(2, "neg%d" % i) == 1
        cs.append((neg, uin(i), [mark(i)]))
    body = [If(cs, [mark(50)] if els else None)]
    env.run_program(wrap(container, body))


def if_bodies(env, container):
    """bodies with several statements, empty-ish bodies (comments), nested exits"""
    k = env.choose(5, "shape")
    ct = env.choose(6, "cond")
    c = conds(ct)(0)
    b0 = [[mark(1), mark(2)], [Note("# nothing here"), mark(1)], [mark(1), Exit(Int(7))], [Note(""), mark(1), Note("# x")],
          [Assert(uin(5)), mark(1)]][k]
    neg = env.choose(2, "neg") == 1
    env.run_program(wrap(container, [If([(neg, c, b0), (neg, conds(ct)(2), [mark(3)])], [mark(4), mark(5)])]))


def many(env, container):
    """more than ten conditionals and loops: labels must not be confused"""
    kind = env.choose(3, "kind")
    st = [Decl(tint(), "x", uin(0))]
    if kind == 0:
        for i in range(13):
            st.append(If([(False, Bin("==", Var("x"), Int(i)), [mark(i)])]))
    elif kind == 1:
        for i in range(13):
            st.append(If([(False, Bin("==", Var("x"), Int(i)), [mark(i)]), (True, Bin("<", Var("x"), Int(20)), [mark(40 + i)])],
                         [put("e", Int(i))] if i > 9 else None))
    else:
        for i in range(12):
            st.append(While(False, Bin("==", Var("x"), Int(i)), [Asg("x", Bin("+", Var("x"), Int(100))), mark(i)]))
    env.run_program(wrap(container, st))


def mk(env, d, tag, inloop, allow_under, counter):
    """one construct chosen by solver selectors, with nested bodies"""
    names = ["if", "ifelse", "ifelif", "while", "whilenot", "for", "mark"]
    if allow_under:
        names.append("for_")
    if inloop:
        names.append("breakif")
    if d == 0:
        names = ["mark"] + (["breakif"] if inloop else [])
    n = names[env.choose(len(names), "k" + tag)]
    i = counter[0]
    counter[0] += 1

    def body(x, loop=inloop, under=allow_under):
        pre = [mark(10 * i + 1)]
        return pre + mk(env, d - 1, tag + x, loop, under, counter) + [mark(10 * i + 2)]
    c = uin(i % 8)
    if n == "mark":
        return [put("v", uin(i % 8))]
    if n == "breakif":
        return [If([(False, c, [mark(i + 70), Break()])])]
    if n == "if":
        return [If([(False, c, body("a"))])]
    if n == "ifelse":
        return [If([(True, c, body("a"))], [mark(10 * i + 5)])]
    if n == "ifelif":
        return [If([(False, c, [mark(10 * i + 3)]), (False, uin((i + 1) % 8), body("a"))], [mark(10 * i + 4)])]
    v = "w%d" % i
    if n in ("while", "whilenot"):
        neg = n == "whilenot"
        cond = Bin(">=" if neg else "<", Var(v), c)
        return [Decl(tint(), v, Int(0)),
                While(neg, cond, body("a", True) + [Asg(v, Bin("+", Var(v), Int(1)))])]
    if n == "for":
        return [Decl(tint(), v, c), For("i" + v, Int(0), Var(v), [put("i", Var("i" + v))] + body("a"))]
    if n == "for_":
        return [Decl(tint(), v, c), For(None, Int(0), Var(v), body("a", inloop, False))]


def nest(env, container, first, depth):
    env_choose = env.choose

    class Fix:
        def choose(self, n, name):
            if name == "k":
                return first
            return env_choose(n, name)
    under = container in ("main", "block")
    st = mk(Fix(), depth, "", False, under, [0])
    env.run_program(wrap(container, st), fuel=4)


def seq(env, container):
    """two constructs one after the other (fall-through between them)"""
    c = [0]
    a = mk(env, 1, "p", False, container in ("main", "block"), c)
    b = mk(env, 1, "q", False, container in ("main", "block"), c)
    env.run_program(wrap(container, a + [mark(60)] + b), fuel=3)


def for_bounds(env, container, shape):
    """loop bounds: literal, variable, constant; symbolic; body changes them"""
    lo = env.sym_int("lo", 0, 2 ** 64 - 1)
    hi = env.sym_int("hi", 0, 2 ** 64 - 1)
    st = []
    if shape == "lit":
        st = [For("i", Int(lo), Int(hi), [put("i", Var("i"))])]
    elif shape == "var":
        st = [Decl(tint(), "a", uin(0)), Decl(tint(), "b", uin(1)), For("i", Var("a"), Var("b"), [put("i", Var("i"))])]
    elif shape == "mutvar":
        st = [Decl(tint(), "a", uin(0)), Decl(tint(), "b", uin(1)),
              For("i", Var("a"), Int(hi), [put("i", Var("i")), Asg("a", Bin("+", Var("a"), Var("b"))), put("a", Var("a"))])]
    elif shape == "skip":
        st = [For("i", Int(lo), Int(hi), [put("i", Var("i")), If([(False, uin(0), [Asg("i", Bin("+", Var("i"), Int(1)))])])])]
    elif shape == "two":
        st = [For("i", Int(0), Int(2), [For("j", Int(lo), Int(hi), [put("j", Bin("+", Bin("*", Var("i"), Int(7)), Var("j")))])])]
    elif shape == "same":
        # the loop variable is local to the loop; the name can be used again
        st = [For("i", Int(lo), Int(hi), [put("i", Var("i"))]), For("i", Int(hi), Int(lo), [put("j", Var("i"))]),
              Decl(tint(), "i", uin(3)), put("k", Var("i"))]
    elif shape == "under":
        st = [For(None, Int(lo), Int(hi), [mark(1)])]
    elif shape == "undervar":
        st = [Decl(tint(), "a", uin(0)), Decl(tint(), "b", uin(1)), For(None, Var("a"), Var("b"), [mark(1)])]
    elif shape == "whilefor":
        st = [Decl(tint(), "a", Int(0)), While(False, Bin("<", Var("a"), uin(0)), [
            For("i", Int(lo), Int(hi), [If([(False, Bin("==", Var("i"), uin(1)), [Break()])]), put("i", Var("i"))]),
            Asg("a", Bin("+", Var("a"), Int(1))), mark(2)])]
    env.run_program(wrap(container, st), fuel=5)


def while_break(env, container):
    """break in every arm of a conditional, in nested loops; statements after"""
    s = env.choose(6, "shape")
    inc = Asg("a", Bin("+", Var("a"), Int(1)))
    init = Decl(tint(), "a", Int(0))
    if s == 0:
        b = [inc, If([(False, uin(1), [Break()]), (False, uin(2), [mark(1)])], [mark(2), Break()]), mark(3)]
    elif s == 1:
        b = [If([(True, Bin("<", Var("a"), uin(1)), [mark(1), Break()])]), inc]
    elif s == 2:
        b = [inc, Decl(tint(), "c", Int(0)), While(False, Bin("<", Var("c"), Int(2)), [
            Asg("c", Bin("+", Var("c"), Int(1))), If([(False, uin(2), [Break()])]), mark(4)]), mark(5),
            If([(False, uin(3), [mark(6), Break()])])]
    elif s == 3:
        b = [If([(False, uin(1), [If([(False, uin(2), [Break()])], [mark(7)])])]), inc, mark(8)]
    elif s == 4:
        b = [inc, While(False, uin(1), [mark(9), Break()]), mark(10)]
    else:
        b = [inc, mark(1), Break()]
    neg = env.choose(2, "neg") == 1
    cond = Bin(">=", Var("a"), uin(0)) if neg else Bin("<", Var("a"), uin(0))
    env.run_program(wrap(container, [init, While(neg, cond, b), mark(11)]), fuel=4)


def cond_calls(env, container):
    """conditions with function calls: evaluated once per test, in order"""
    k = env.choose(4, "k")
    f = Func("f", [("x", tint())], [tint()], [put("f", Var("x")), Return(Bin("<", Var("x"), uin(1)))])
    if k == 0:
        st = [If([(False, CallF("f", [uin(0)]), [mark(1)]), (True, CallF("f", [uin(2)]), [mark(2)]), (False, CallF("f", [uin(3)]), [mark(3)])], [mark(4)])]
    elif k == 1:
        st = [Decl(tint(), "a", Int(0)), While(False, CallF("f", [Var("a")]), [Asg("a", Bin("+", Var("a"), Int(1))), mark(5)])]
    elif k == 2:
        st = [If([(False, Bin("&&", CallF("f", [uin(0)]), CallF("f", [uin(2)])), [mark(1)])], [mark(2)])]
    else:
        st = [If([(True, Bin("||", CallF("f", [uin(0)]), Un("!", CallF("f", [uin(2)]))), [mark(1)])], [mark(2)])]
    if container == "main":
        p = prog(*(st + [mark(99), Exit(Int(1)), f]))
    elif container == "block":
        p = prog(Jump("blk"), Block("blk", st + [mark(99), Exit(Int(1)), f]))
    else:
        p = prog(ExprStmt(CallF("work")), mark(98), Exit(Int(1)), f, Func("work", [], [], st + [mark(99), Return()]))
    env.run_program(p, fuel=3)


def ret_inside(env):
    """return from inside conditionals and loops leaves the function at once"""
    k = env.choose(6, "k")
    r = lambda v: Return(Int(v))
    if k == 0:
        b = [If([(False, uin(0), [mark(1), r(1)]), (False, uin(1), [r(2)])], [r(3)]), r(4)]
    elif k == 1:
        b = [Decl(tint(), "a", Int(0)), While(False, Bin("<", Var("a"), uin(0)), [
            Asg("a", Bin("+", Var("a"), Int(1))), If([(False, Bin("==", Var("a"), uin(1)), [Return(Var("a"))])]), mark(2)]), r(100)]
    elif k == 2:
        b = [For("i", Int(0), Int(4), [If([(False, Bin("==", Var("i"), uin(0)), [Return(Var("i"))])]), mark(3)]), r(50)]
    elif k == 3:
        b = [If([(False, uin(0), [If([(True, uin(1), [r(1)])], [mark(2)]), mark(3)])], [mark(4), r(5)]), mark(6), r(7)]
    elif k == 4:
        b = [While(True, uin(0), [r(8)]), r(9)]
    else:
        b = [If([(False, uin(0), [Exit(Int(3))])]), r(10)]
    env.run_program(prog(put("r", Bin("+", Int(1000), CallF("f"))), mark(99), Exit(Int(1)), Func("f", [], [tint()], b)), fuel=4)


def finding_nested_under(env):
    env.case = "for-underscore-nested"
    env.run_program(prog(For(None, Int(0), Int(3), [For(None, Int(0), Int(2), [mark(1)])]), Exit(Int(1))), fuel=12)


def finding_under_func(env):
    env.case = "for-underscore-function"
    env.run_program(prog(Exit(Bin("+", Int(1), CallF("f"))),
                         Func("f", [], [tint()], [For(None, Int(0), Int(2), [mark(1)]), Return(Int(5))])), fuel=12)


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for c in CONTAINERS:
        for arms in range(1, 7 if deep else 5):
            for els in (0, 1):
                out.append(("if_chain/%s/%d/%d" % (c, arms, els), "if_chain", dict(arms=arms, els=els, container=c)))
        out.append(("if_bodies/" + c, "if_bodies", dict(container=c)))
        out.append(("while_break/" + c, "while_break", dict(container=c)))
        out.append(("seq/" + c, "seq", dict(container=c)))
        nk = 8 if c in ("main", "block") else 7
        for first in range(nk):
            if c in ("main", "func") or deep or True:
                out.append(("nest/%s/%d" % (c, first), "nest", dict(container=c, first=first, depth=3 if deep else 2)))
    for c in ("main", "func"):
        out.append(("many/" + c, "many", dict(container=c)))
    for c in ("main", "block", "func"):
        out.append(("cond_calls/" + c, "cond_calls", dict(container=c)))
        for s in ("lit", "var", "mutvar", "skip", "two", "same", "whilefor"):
            out.append(("for/%s/%s" % (s, c), "for_bounds", dict(container=c, shape=s)))
    for c in ("main", "block"):
        for s in ("under", "undervar"):
            out.append(("for/%s/%s" % (s, c), "for_bounds", dict(container=c, shape=s)))
    out.append(("ret_inside", "ret_inside", {}))
    out.append(("finding/nested", "finding_nested_under", {}))
    out.append(("finding/func", "finding_under_func", {}))
    return out
