"""C11 blocks, jump, switch, exit"""
from .common import *
from vlib import core, avm
from vlib.lang import Cst, Enum, ConstDef, Struct, SField, taddr

ID = "C11"
BOUNDS = {
    "switch": "1..6 options (thorough 8); int (option values 0..255 for an odd, 2^56..2^64-1 for an even number of options), bytes, constants, named constants, variables and field "
              "expressions as options, repeated options and targets, with and without else",
    "places": "main, block, inner block, if/elif/else arm, while and for body, function",
    "blocks": "trees of 2..4 nested levels with equal and different names, definitions before and after the use; jump/switch from every block "
              "to every visible name",
    "transfers": "<= 5 per run (back jumps form loops; beyond: prefixes compared)",
    "run-time values": "all uint64 and byte strings",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "the expression of a switch is evaluated for each option tried (the value of an expression without effects is the same each time; "
    "the reference re-evaluates it as well)",
]


def target(name, i, *more):
    return Block(name, [mark(i)] + list(more) + [Exit(Int(i + 1))])


PLACES = ["main", "block", "inner", "if", "elif", "else", "while", "for", "func"]


def place(where, stmts, blocks, pre=()):
    pre = list(pre)
    if where == "main":
        return prog(*(pre + stmts + blocks))
    if where == "block":
        return prog(*(pre + [Jump("start"), Block("start", stmts)] + blocks))
    if where == "inner":
        # the targets are defined next to, inside and outside of the block
        k = len(blocks) // 2
        return prog(*(pre + [Jump("start"), Block("start", [Jump("here"), Block("here", stmts)] + blocks[:k])] + blocks[k:]))
    if where == "if":
        return prog(*(pre + [If([(False, uin(10), stmts)]), mark(90), Exit(Int(9))] + blocks))
    if where == "elif":
        return prog(*(pre + [If([(True, uin(10), [mark(91)]), (False, uin(11), stmts)], [mark(92)]), mark(90), Exit(Int(9))] + blocks))
    if where == "else":
        return prog(*(pre + [If([(True, uin(10), [mark(91)])], stmts), mark(90), Exit(Int(9))] + blocks))
    if where == "while":
        return prog(*(pre + [Decl(tint(), "w", Int(0)), While(False, Bin("<", Var("w"), uin(10)), [
            Asg("w", Bin("+", Var("w"), Int(1))), put("w", Var("w")), If([(False, uin(11), stmts)])]), mark(90), Exit(Int(9))] + blocks))
    if where == "for":
        return prog(*(pre + [Decl(tint(), "wm", uin(10)), For("w", Int(0), Var("wm"), [put("w", Var("w")), If([(False, Bin("==", Var("w"), uin(11)), stmts)])]), mark(90), Exit(Int(9))] + blocks))
    if where == "func":
        # a switch ends the function without returning
        return prog(*(pre + [put("r", CallF("f", [uin(10)])), mark(90), Exit(Int(9)),
                             Func("f", [("x", tint())], [tint()], [If([(False, Var("x"), stmts)]), Return(Int(3))])] + blocks))


NAMES = ["alpha", "beta", "b_2", "end_1", "x9", "omega"]


def options(env, kind, n):
    if kind == "int":
        # for longer switches only some of the options are symbolic
        # one size in bytes for all options, so that a compiler that sizes literals by cases does not fork
        lo, hi = (0, 255) if n % 2 else (2 ** 56, 2 ** 64 - 1)
        return [Int(env.sym_int("o%d" % i, lo, hi) if n < 4 or i in (0, n - 2) else 1000 + i) for i in range(n)]
    if kind == "bytes":
        words = ["", "a", "ab", "abc", "b", "a b", "else", "0x61"]
        r = env.choose(len(words), "rot")
        return [Str(words[(r + i) % len(words)]) for i in range(n)]
    if kind == "equal":
        r = env.choose(n, "rot")
        return [Int([5, 7, 5, 0, 7, 5][(i + r) % 6]) for i in range(n)]
    if kind == "enum":
        return [Enum(x) for x in ["NoOp", "OptIn", "CloseOut", "DeleteApplication", "UpdateApplication", "ClearState"][:n]]
    if kind == "const":
        return [Cst("ONE"), Cst("TWO"), Int(3), Cst("BIG"), Int(0), Int(2)][:n]
    if kind == "constb":
        return [Cst("NAME"), Str("b"), Cst("EMPTY"), Str("name"), Str("c"), Str("d")][:n]
    if kind == "var":
        return [Var("v"), uin(2), Bin("+", Var("v"), Int(1)), Int(4), Op("len", [], [bin_(1)]), Un("!", uin(3))][:n]
    if kind == "varb":
        return [Var("v"), bin_(2), Concat(Var("v"), Str("x")), Str("y"), Op("itob", [], [uin(2)]), Fld("txn", "Sender")][:n]


def pre_value(kind):
    """declarations and the switched expression"""
    if kind == "const":
        return [ConstDef("int", "ONE", "1", 1), ConstDef("int", "TWO", "2", 2), ConstDef("int", "BIG", str(2 ** 64 - 1), 2 ** 64 - 1)], uin(0)
    if kind == "constb":
        return [ConstDef("bytes", "NAME", '"name"', b"name"), ConstDef("bytes", "EMPTY", '""', b"")], bin_(0)
    if kind == "var":
        return [Decl(tint(), "v", uin(1))], uin(0)
    if kind == "varb":
        return [Decl(tbytes(), "v", bin_(1))], bin_(0)
    if kind == "bytes":
        return [], bin_(0)
    if kind == "enum":
        return [], Fld("txn", "OnCompletion")
    return [], uin(0)


def switch(env, kind, n, els, where):
    pre, e = pre_value(kind)
    shared = env.choose(2, "shared")
    opts = [(o, NAMES[i % 2 if shared else i]) for i, o in enumerate(options(env, kind, n))]
    used = sorted({b for _, b in opts}) + (["other"] if els else [])
    blocks = [target(b, i) for i, b in enumerate(used)]
    if env.choose(2, "rev"):
        blocks = blocks[::-1]
    env.run_program(place(where, [Switch(e, opts, "other" if els else None)], blocks, pre), fuel=4)


def exprs(env, k):
    """switched expressions of every form"""
    pre = [Decl(tint(), "v", uin(0)), Decl(tbytes(), "b", bin_(0))]
    S = Struct("Item", [("n", tint()), ("s", tbytes(3))])
    st, es = [], None
    if k == 0:
        es, st = Var("v"), [(Int(1), "a"), (Int(2), "b")]
    elif k == 1:
        es, st = Bin("+", Var("v"), Int(1)), [(Int(1), "a"), (Int(2), "b")]
    elif k == 2:
        es, st = Op("len", [], [Var("b")]), [(Int(1), "a"), (Var("v"), "b")]
    elif k == 3:
        es, st = CallF("f", [Var("v")]), [(Int(1), "a"), (Int(2), "b")]
    elif k == 4:
        es, st = SField("s", "n"), [(Int(1), "a"), (Int(2), "b")]
    elif k == 5:
        es, st = SField("s", "s"), [(Str("abc"), "a"), (Var("b"), "b")]
    elif k == 6:
        es, st = Fld("txn", "ApplicationArgs", ai=Int(0)), [(Str("a"), "a"), (Str("b"), "b")]
    elif k == 7:
        es, st = Int(1), [(uin(0), "a"), (uin(1), "b"), (Int(1), "a")]
    elif k == 8:
        es, st = Op("app_global_get", [], [Str("k")]), [(Int(1), "a"), (Int(2), "b")]
    elif k == 9:
        es, st = Var("v"), [(CallF("f", [uin(1)]), "a"), (CallF("f", [uin(2)]), "b")]
    elif k == 10:
        es, st = Var("v"), [(Bin("&&", uin(1), uin(2)), "a"), (Bin("==", uin(3), Int(4)), "b")]
    elif k == 11:
        es, st = Concat(Var("b"), Str(":")), [(Str(":"), "a"), (Str("x: y"), "b"), (Concat(Str(":"), Str(":")), "a")]
    els = "b" if env.choose(2, "els") else None
    fs = [Func("f", [("x", tint())], [tint()], [put("f", Var("x")), Return(Bin("/", Var("x"), Int(2)))])]
    head = [S] if k in (4, 5) else []
    if head:
        pre = pre + [Decl(S.type, "s", Cast(bin_(1), S.type))]
    env.run_program(Prog([Note("#pragma version 8")] + head + pre + [Switch(es, st, els), target("a", 1), target("b", 2)] + fs), fuel=4)


def tree(env, levels, names, start):
    """nested blocks with equal names; every block can jump to every visible name"""
    count = [0]

    def level(d, path):
        out = []
        for nm in names:
            i = count[0]
            count[0] += 1
            body = [put("in", Str("/".join(path + [nm])))]
            inner = level(d - 1, path + [nm]) if d > 1 else []
            key = "j" + "".join(path) + nm
            how = env.choose(4, "h") if (i == start) else 3
            tgt = names[env.choose(len(names), "t")] if (i == start) else names[i % len(names)]
            if how == 0:
                body += [Jump(tgt)]
            elif how == 1:
                body += [Switch(uin(0), [(Int(1), tgt), (Int(2), names[0])], names[-1])]
            elif how == 2:
                body += [If([(False, uin(1), [Jump(tgt)])], [put("else", uin(2))]), Jump(names[0])]
            else:
                # descend or leave
                body += [If([(False, uin(3), [Exit(uin(4))])]), Jump(tgt)]
            out.append(Block(nm, body + inner))
        return out
    blocks = level(levels, [])
    env.run_program(prog(Jump(names[env.choose(len(names), "first")]), *blocks), fuel=4)


def order(env, k):
    """definitions in any order; control never falls from one block into the next"""
    A = target("a", 1)
    B_ = Block("b", [mark(2), Jump("c")])
    C_ = Block("c", [mark(3), If([(False, uin(1), [Jump("a")])]), Exit(uin(2))])
    F = Func("f", [], [tint()], [mark(4), Return(uin(3))])
    G = Func("g", [], [], [mark(5), Return()])
    import itertools
    items = [A, B_, C_, F, G]
    perm = list(itertools.permutations(range(5)))[k * 8 % 120]
    start = [Jump("b"), Switch(uin(0), [(Int(0), "b")], "c"), Switch(uin(0), [(Int(0), "a"), (Int(1), "b")]), Exit(CallF("f"))][env.choose(4, "start")]
    env.run_program(prog(mark(0), ExprStmt(CallF("g")), start, *[items[i] for i in perm]), fuel=4)


def keep(env, k):
    """variables of enclosing scopes keep their values across the transfer"""
    if k == 0:
        p = prog(Decl(tint(), "x", uin(0)), Decl(tbytes(), "y", bin_(0)), Switch(Var("x"), [(Int(1), "a"), (Int(2), "b")], "a"),
                 Block("a", [Decl(tint(), "z", Bin("+", Var("x"), Int(1))), put("z", Var("z")), put("y", Var("y")), Asg("x", Int(2)), Jump("b")]),
                 Block("b", [Decl(tint(), "q", Bin("*", Var("x"), Int(3))), put("q", Var("q")), put("y", Var("y")), put("x", Var("x")), Exit(Int(1))]))
    elif k == 1:
        # state machine: back jumps
        p = prog(Decl(tint(), "i", Int(0)), Decl(tint(), "s", Int(0)), Jump("loop"),
                 Block("loop", [Asg("s", Bin("+", Var("s"), uin(0))), Asg("i", Bin("+", Var("i"), Int(1))), put("s", Var("s")),
                                If([(False, Bin("<", Var("i"), uin(1)), [Jump("loop")])]), Jump("done")]),
                 Block("done", [put("s", Var("s")), Exit(Var("i"))]))
    elif k == 2:
        # out of nested loops and inner blocks, with variables of all of them
        p = prog(Decl(tint(), "x", uin(0)), Jump("outer"),
                 Block("outer", [Decl(tint(), "y", uin(1)), Jump("inner"),
                                 Block("inner", [Decl(tint(), "z", uin(2)), For("i", Int(0), Int(3), [
                                     Decl(tint(), "w", Bin("+", Var("i"), Var("z"))), If([(False, Bin("==", Var("w"), uin(3)), [Jump("next")])]), put("w", Var("w"))]),
                                     Jump("next")]),
                                 Block("next", [Decl(tint(), "z", Bin("-", Var("y"), Int(1))), put("z", Var("z")), put("y", Var("y")), put("x", Var("x")), Exit(Int(1))])]))
    elif k == 3:
        # ping-pong between siblings that share the enclosing variables
        p = prog(Decl(tint(), "n", uin(0)), Decl(tint(), "t", Int(0)), Jump("ping"),
                 Block("ping", [Decl(tint(), "a", Bin("+", Var("t"), Int(1))), Asg("t", Var("a")), put("a", Var("a")), If([(False, Bin("==", Var("t"), Var("n")), [Exit(Int(1))])]), Jump("pong")]),
                 Block("pong", [Decl(tint(), "b", Bin("+", Var("t"), Int(10))), Asg("t", Var("b")), put("b", Var("b")), If([(False, Bin(">", Var("t"), Var("n")), [Exit(Int(2))])]), Jump("ping")]))
    elif k == 4:
        # calls from blocks: function variables do not disturb the blocks'
        p = prog(Decl(tint(), "x", uin(0)), Jump("a"),
                 Block("a", [Decl(tint(), "y", CallF("f", [Var("x"), uin(1)])), put("y", Var("y")), Switch(Var("y"), [(Int(0), "b"), (Var("x"), "c")], "b")]),
                 Block("b", [Decl(tint(), "z", CallF("f", [Int(3), Var("x")])), put("z", Var("z")), put("x", Var("x")), Exit(Int(1))]),
                 Block("c", [Decl(tbytes(), "z", Concat(bin_(0), Str("!"))), put("z", Var("z")), put("x", Var("x")), Exit(Int(2))]),
                 Func("f", [("p", tint()), ("q", tint())], [tint()], [Decl(tint(), "r", Bin("-", Var("p"), Var("q"))), Return(Var("r"))]))
    elif k == 5:
        # blocks and functions of the same names in different scopes
        p = prog(Jump("a"),
                 Block("a", [put("r", CallF("f")), Jump("b"), Func("f", [], [tint()], [Return(Int(1))]), Block("b", [put("r", CallF("f")), Switch(uin(0), [(Int(1), "a"), (Int(2), "c")]),
                                                                                                     Block("a", [put("inner", CallF("f")), Exit(Int(4))])])]),
                 Block("c", [put("r", CallF("f")), Exit(Int(1))]), Func("f", [], [tint()], [Return(Int(2))]))
    elif k == 6:
        # main variables assigned in one block and read in another one nested elsewhere
        p = prog(Decl(tint(), "v", Int(0)), Decl(tbytes(), "k", Str("k")), If([(False, uin(0), [Jump("a")])]), Jump("b"),
                 Block("a", [Asg("v", uin(1)), Asg("k", bin_(0)), Jump("c")]), Block("b", [Asg("v", uin(2)), Jump("c")]),
                 Block("c", [Jump("d"), Block("d", [put("v", Var("v")), put("k", Var("k")), Exit(Var("v"))])]))
    env.run_program(p, fuel=5)


def exits(env, where):
    """exit ends the program with its value wherever it stands"""
    k = env.choose(6, "k")
    e = [Int(0), Int(1), uin(0), Bin("-", uin(0), uin(1)), CallF("g", [uin(2)]), Op("len", [], [bin_(0)])][k]
    G = Func("g", [("x", tint())], [tint()], [put("g", Var("x")), Return(Bin("%", Var("x"), uin(3)))])
    p = place(where, [mark(1), Exit(e)], [G])
    env.run_program(p, fuel=4)


BAD = [
    "jump nope", "jump b", "jump a__b", "jump a:", "jump", "jump(a)", "jump a b", "jump f", "jump a\n    exit(1)",
    "switch 1:\n    1: nope\nend", "switch 1:\n    1: a\n    else: nope\nend", "switch 1:\n    1: b\nend", "switch 1:\n    1: f\nend",
    'switch 1:\n    "a": a\nend', 'switch "a":\n    1: a\nend', 'switch Txn.Fee:\n    Txn.Sender: a\nend',
    "switch 1:\n    1: a\n    else: a\n    else: c\nend", "switch 1:\n    1: a\n    else: c\n    2: a\nend x", "switch 1:\n    1: a",
    "switch 1:\n    1 a\nend", "switch:\n    1: a\nend", "switch 1\n    1: a\nend", "switch 1:\n    1: \nend", "switch 1:\n    : a\nend",
    "switch v:\n    1: a\nend", "switch 1:\n    v: a\nend", "switch 1:\n    1: a\nend\nexit(1)", "switch push(1):\n    1: a\nend", "switch 1:\n    nothing(): a\nend",
    "switch nothing():\n    1: a\nend", "switch two():\n    1: a\nend", "exit()", 'exit("a")', "exit(1, 2)", "exit(nothing())", "exit(two())", "exit 1", "exit(1) x", "exit(1",
    "switch 1:\n    1: a\n    elif 2: a\nend", "switch 1:\n    1: a; 2: c\nend", "switch 1:\n    1: a, c\nend", "exit(1)\njump a", "jump c2",
]


def rejected(env, i):
    src = """#pragma version 8
%s
block a:
    jump b
    block b:
        exit(2)
    end
end
block c:
    switch 1:
        1: c2
    end
    block c2:
        exit(1)
    end
end
func f() int:
    return 1
end
func nothing():
    return
end
func two() int, int:
    return 1, 2
end
""" % BAD[i]
    if env.choose(2, "in block"):
        src = src.replace(BAD[i], "jump z\nblock z:\n%s\nend" % "\n".join("    " + x for x in BAD[i].split("\n")), 1)
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if r.ok:
        env.fail("accepted: %r" % BAD[i])
    if r.kind not in ("ParseError", "CompileError"):
        env.fail("%r crashes the compiler: %s: %s" % (BAD[i], r.kind, r.err))
    env.reached()


def fall(env, i):
    """definitions that execution would run into are rejected"""
    d = ["block a:\n    exit(1)\nend", "func f():\n    return\nend", "@public()\nfunc f():\n    return\nend"][i]
    st = ["int x = 1", "if 1:\n    exit(1)\nend", "while 1:\n    exit(1)\nend", "app_global_del(\"k\")", "assert(1)", "if 1:\n    exit(1)\nelse:\n    exit(0)\nend",
          "for i in 0:3:\n    exit(1)\nend", "# nothing"][env.choose(8, "s")]
    src = "%s\n%s\nexit(1)\n" % (st, d)
    w = env.choose(2, "w")
    if w:
        src = "jump z\nblock z:\n%s\nend\n" % "\n".join("    " + x for x in src.strip().split("\n"))
    src = "#pragma version 8\n" + src
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if r.ok:
        env.fail("a definition in the path of execution is accepted")
    env.reached()


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for w in PLACES:
        for kind in ("int", "bytes", "equal"):
            for n in ((1, 2, 4, 6) if w == "main" else (1, 3)) if not deep else (1, 2, 3, 4, 5, 6):
                for els in (0, 1):
                    out.append(("switch/%s/%s/%d/%d" % (w, kind, n, els), "switch", dict(kind=kind, n=n, els=els, where=w)))
        out.append(("exits/" + w, "exits", dict(where=w)))
    for kind in ("enum", "const", "constb", "var", "varb"):
        for n in (1, 3, 6):
            for w in PLACES if deep else ("main", "inner", "func"):
                if kind in ("const", "constb") and w == "func":
                    pass
                out.append(("switch/%s/%s/%d" % (w, kind, n), "switch", dict(kind=kind, n=n, els=n % 2, where=w)))
    for k in range(12):
        out.append(("exprs/%d" % k, "exprs", dict(k=k)))
    for lv, names in ((1, ["a", "b", "c"]), (2, ["a", "b"]), (2, ["a", "b", "c"]), (3, ["a", "b"])) + (((4, ["a", "b"]),) if deep else ()):
        total = sum(len(names) ** d for d in range(1, lv + 1))
        for s in range(total):
            out.append(("tree/%d/%d/%d" % (lv, len(names), s), "tree", dict(levels=lv, names=names, start=s)))
    for k in range(15):
        out.append(("order/%d" % k, "order", dict(k=k)))
    for k in range(7):
        out.append(("keep/%d" % k, "keep", dict(k=k)))
    for i in range(len(BAD)):
        out.append(("rejected/%d" % i, "rejected", dict(i=i)))
    for i in range(3):
        out.append(("fall/%d" % i, "fall", dict(i=i)))
    return out
