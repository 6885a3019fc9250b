"""C19 the emitted TEAL is well-formed"""
import importlib

from .common import *
from vlib import core, avm
from vlib.core import AsmError, IllTyped
from vlib.lang import Str as LStr

ID = "C19"
BOUNDS = {
    "names": "programs of 2-4 blocks and functions in 11 arrangements (side by side, nested up to three deep, functions in blocks, in functions, routed), of loops and conditionals, "
             "inner groups and constants; their names consist of 1-3 symbolic characters, or have one of 17 forms like the labels the compiler makes (a__func__?, l?_end, route_?, "
             "_itxn_begin?, AA, ...) with symbolic characters; a symbolic character is one of a, c, _, l, 0, 1 (constants A, B, _, 0)",
    "programs": "the generators of C01..C12 (every n-th job): instructions, immediates, labels and the stack on every path of the control-flow graph (branch conditions arbitrary, loops unbounded)",
    "repetition": "each of 14 constructs 12 (thorough 40) times in one program, run with a symbolic selector that picks one of them",
    "immediates": "symbolic transaction indices, array indices, opcode immediates 0..70000, struct and box sizes 1..4096, slots of up to 300 variables",
    "pragma": "the version line at every place among comments, blanks and definitions; version numbers of 1-3 symbolic digits",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "the assembler is the model in vlib/avm.py (labels, immediates, #define, literals); raw teal: blocks are the programmer's",
    "the order of the two immediates of substring is the programmer's (not part of the language spec)",
    "the control-flow stack analysis decides heights; kinds of operands are decided on the executed paths of C01..C12 and C20, whose runs fail on any operand of the wrong kind",
]
TECHNIQUE = ("symbolic execution of the compiler on symbolic names, numbers and structures; z3 decides label uniqueness and the equality with reference semantics, and the existence of "
             "stack-height bounds for every path of the emitted control-flow graph")
NOTE = "Within the bounds of the evidence file the TEAL of every accepted program assembles, has each label once and never underflows the stack"
LEVEL = "other"
EXPLANATION = ("Bounded symbolic execution of the compiler on programs with symbolic names and numbers; the emitted text is assembled by an independent model on every path. Stack "
               "heights are difference constraints over the instructions of the emitted TEAL, decided by z3 for all control-flow paths.")
LIMITS = {"deadline": 120}


# ---------------------------------------------------------------- stack heights on all control-flow paths
POPS = {"push": (0, 1), "load": (0, 1), "store": (1, 0), "b": (0, 0), "bz": (1, 0), "bnz": (1, 0), "return": (1, 0), "err": (0, 0), "assert": (1, 0), "pop": (1, 0), "dup": (1, 2),
        "dup2": (2, 4), "swap": (2, 2), "retsub": (0, 0), "callsub": (0, 0)}


def effect(i):
    if i.op in POPS:
        return POPS[i.op]
    if i.op == "switch":
        return 1, 0
    if i.op == "match":
        return 1 + len(i.imms), 0
    if i.op == "popn":
        return int(i.imms[0]), 0
    if i.op == "dupn":
        return 1, 1 + int(i.imms[0])
    if i.op in ("dig", "cover", "uncover", "bury"):
        k = core.concrete(i.imms[0]) if hasattr(core, "concrete") else int(i.imms[0])
        return {"dig": (k + 1, k + 2), "cover": (k + 1, k + 1), "uncover": (k + 1, k + 1), "bury": (k + 1, k)}[i.op]
    o = avm.SPEC[i.op]
    return len(o.get("Args", "")), len(o.get("Returns", ""))


def heights(env, p):
    """is there, for every instruction, a lower bound of the stack height that no control-flow path goes below?
    h(entry) = 0; h(next) <= h(i) + effect; h(i) >= operands; a subroutine has its own frame r, takes a(f) values of its caller and changes the height by at least d(f)"""
    n = len(p.ins)
    subs = sorted({p.labels[i.imms[0]] for i in p.ins if i.op == "callsub"})
    # which instructions belong to which routine (reachable without calls)
    cons, members = [], {}
    for root in [0] + subs:
        seen, todo = set(), [root]
        while todo:
            k = todo.pop()
            if k in seen or k >= n:
                continue
            seen.add(k)
            i = p.ins[k]
            nxt = [] if i.op in ("b", "return", "err", "retsub") else [k + 1]
            if i.op in avm.BRANCH and i.op != "callsub" or i.op in avm.MULTI:
                nxt += [p.labels[x] for x in i.imms]
            for x in nxt:
                cons.append((root, k, x))
            todo += nxt
        members[root] = seen
        if root == 0 and any(p.ins[k].op == "retsub" for k in seen):
            env.fail("execution of the main program runs into a retsub")
        if any(x == n for (r, k, x) in cons if r == root) and root != 0:
            env.fail("a subroutine runs off the end of the program")
    facts = []      # linear facts (a, b, c): a <= b + c over named heights
    for root in [0] + subs:
        base = ("h", root, root)
        if root == 0:
            facts += [(base, None, 0), (None, base, 0)]
        else:
            facts += [(base, None, 0), (None, base, 0)]
        for k in members[root]:
            i = p.ins[k]
            pops, pushes = effect(i)
            h = ("h", root, k)
            if i.op == "callsub":
                f = p.labels[i.imms[0]]
                # the caller has what the subroutine takes: a(f) <= h + floor(root)
                facts.append((("sum", ("a", f)), h if root == 0 else ("plus", h, ("a", root)), 0))
            elif pops:
                # pops <= h (+ values of the caller)
                facts.append((None, h if root == 0 else ("plus", h, ("a", root)), -pops))
            if i.op == "retsub":
                facts.append((("sum", ("d", root)), h, 0))
        for (r, k, x) in cons:
            if r != root or x >= n:
                continue
            i = p.ins[k]
            pops, pushes = effect(i)
            if i.op == "callsub":
                facts.append((("h", root, x), ("plus", ("h", root, k), ("d", p.labels[i.imms[0]])), 0))
            else:
                facts.append((("h", root, x), ("h", root, k), pushes - pops))
    return facts


def solve_heights(env, facts):
    if env.concrete:
        return relax(facts)
    import z3
    s = z3.Solver()
    s.set("timeout", 20000)
    names = {}

    def term(x):
        if x is None:
            return z3.IntVal(0)
        if x[0] == "sum":
            return term(x[1])
        if x[0] == "plus":
            return term(x[1]) + term(x[2])
        if x not in names:
            names[x] = z3.Int("_".join(map(str, x)))
            if x[0] == "a":
                s.add(names[x] >= 0)
        return names[x]
    for a, b, c in facts:
        s.add(term(a) <= term(b) + c)
    import time
    t0 = time.time()
    r = s.check()
    env.e.stats["queries"] = env.e.stats.get("queries", 0) + 1
    for k in ("solver_time", "solver_seconds", "time"):
        if k in env.e.stats:
            env.e.stats[k] += time.time() - t0
    if r == z3.unknown:
        from vlib.engine import Inconclusive
        raise Inconclusive("stack heights")
    return r == z3.sat


def relax(facts):
    """the same question by interpretation (replays have no solver): least floors"""
    val = {}

    def term(x):
        if x is None:
            return 0
        if x[0] == "sum":
            return term(x[1])
        if x[0] == "plus":
            return term(x[1]) + term(x[2])
        return val.setdefault(x, 0 if x[0] == "a" else 64)
    for _ in range(40000):
        changed = False
        for a, b, c in facts:
            l, r = term(a), term(b) + c
            if l <= r:
                continue
            changed = True
            v = a[1] if a is not None and a[0] == "sum" else a
            if v is not None and v[0] != "a":
                val[v] = r
            else:
                # pops <= h + a(f), or a(g) <= h + a(f): take more from the caller
                if b is not None and b[0] == "plus" and b[2][0] == "a":
                    val[b[2]] = term(b[2]) + (l - r)
                else:
                    return False
            if val.get(b[2] if b is not None and b[0] == "plus" else None, 0) > 300 or (v in val and val[v] < -300):
                return False
        if not changed:
            return True
    return False


def wellformed(env, res, post=None):
    lines = res.lines if post is None else post(res.lines)
    code = [l for l in lines if avm.tokens_of_line(l)]
    if not code or code[0].split()[:2] != ["#pragma", "version"]:
        env.fail("the first line of the TEAL is not the version: %r" % (code[:1],))
    try:
        p = env.assemble(lines)
    except AsmError as e:
        env.fail("emitted TEAL does not assemble: %s" % e)
    if not solve_heights(env, heights(env, p)):
        env.fail("a control-flow path of the emitted TEAL takes values from an empty stack")
    return p


class Skip(BaseException):
    pass


def compiled(env, mod, fn, params):
    m = importlib.import_module("props." + mod)

    def run(prog, src=None, teal_post=None, **kw):
        src = prog.source() if src is None else src
        env.notes["source"] = src
        res = env.compile(src)
        env.trace = [("outcome", "accepted" if res.ok else "rejected", None)]
        if not res.ok:
            raise Skip()
        wellformed(env, res, teal_post)
        raise Skip()
    env.run_program = run
    try:
        getattr(m, fn)(env, **params)
    except Skip:
        pass
    finally:
        del env.run_program
    env.reached()


# ---------------------------------------------------------------- names
class D_:
    def __init__(self, kind, hole, *kids):
        self.kind, self.hole, self.kids = kind, hole, kids


def Bk(hole, *kids):
    return D_("block", hole, *kids)


def Fn(hole, *kids):
    return D_("func", hole, *kids)


SHAPES = [
    [Bk(0), Bk(1)],
    [Bk(0, Bk(1))],
    [Bk(0, Bk(1)), Bk(2)],
    [Bk(0, Bk(1)), Bk(2, Bk(3))],
    [Bk(0, Bk(1, Bk(2))), Bk(3)],
    [Fn(0), Bk(1)],
    [Fn(0), Fn(1)],
    [Fn(0, Fn(1)), Fn(2)],
    [Bk(0, Fn(1)), Fn(2)],
    [Bk(0, Fn(1)), Bk(2, Fn(3))],
    [Bk(0, Fn(1, Fn(2))), Bk(3)],
]
HOLES = [2, 2, 3, 4, 4, 2, 2, 3, 3, 4, 4]
AL = frozenset(map(ord, "ac_"))
ALL = frozenset(map(ord, "ac_l01"))
FORMS = ["?", "??", "a??", "a__?", "?__c", "a__func__?", "func__?", "?_func__c", "l?_end", "l?_else", "l?_elif_?", "l?_while", "l?_for", "route_?", "a__route_?", "_itxn_begin?", "_itxn_group_?",
         "A?", "main", "a__??__c"]


def word(env, form, tag):
    out, k = "", 0
    for c in form:
        if c == "?":
            out = out + str.__str__(env.sym_text("%s_%d" % (tag, k), 1, ALL if "l" in form or len(form) == 1 else AL))
            k += 1
        else:
            out = out + c
    return out


def walk(defs, chain=()):
    for d in defs:
        yield d, chain
        yield from walk(d.kids, chain + (d,))


def equal(env, a, b):
    return bool(env.lift(a) == env.lift(b))


def visible(env, kind, name, chain, top, names):
    """definition that the name means in a scope (inner definitions first)"""
    for scope in list(chain[::-1]) + [None]:
        defs = top if scope is None else scope.kids
        for d in defs:
            if d.kind == kind and equal(env, names[d.hole], name):
                return d
    return None


CONSTRUCTS = ["int tt = Txn.Fee", "if tt == 1:", "tt = 3", "elif tt == 2:", "tt = 4", "else:", "tt = tt", "end", "while tt == 99:", "break", "end", "for ii in 0:2:", "tt = tt", "end"]


def naming(env, shape, forms, start, ctrl, consts=0):
    top = SHAPES[shape]
    names = [word(env, f, "n%d" % i) for i, f in enumerate(forms)]
    alld = list(walk(top))
    # from main to a visible definition, from there to one visible there
    reachable = [d for d, ch in alld if not ch]
    first = reachable[start % len(reachable)]
    second_options = [None] + [d for d, ch in alld if d is not first]
    second = second_options[env.choose(len(second_options), "second")]
    where = {id(d): i + 1 for i, (d, ch) in enumerate(alld)}
    chains = {id(d): ch for d, ch in alld}

    def action(target):
        if target is None:
            return ["exit(1)"]
        t = names[target.hole]
        return ["jump %s" % t] if target.kind == "block" else ["exit(%s())" % t]

    def text(d):
        inner = []
        for k in d.kids:
            inner += text(k)
        if d.kind == "block":
            return ["block %s:" % names[d.hole], 'log("%d")' % where[id(d)]] + (action(second) if d is first else ["exit(1)"]) + inner + ["end"]
        ret = "return 1"
        if d is first and second is not None and second.kind == "func":
            ret = "return %s()" % names[second.hole]
        return ["func %s() int:" % names[d.hole], 'log("%d")' % where[id(d)], ret] + inner + ["end"]

    # reference: which definitions run
    expect, bad = [], False
    for i, (d, ch) in enumerate(alld):
        for (e, ch2) in alld[:i]:
            if ch == ch2 and e.kind == d.kind and equal(env, names[d.hole], names[e.hole]):
                bad = True
    cur = visible(env, first.kind, names[first.hole], (), top, names)
    steps = 0
    while cur is not None and steps < 4:
        expect.append(where[id(cur)])
        steps += 1
        if cur is not first or second is None or (cur.kind == "func" and second.kind == "block"):
            break
        nxt = visible(env, second.kind, names[second.hole], chains[id(cur)] + (cur,), top, names)
        if nxt is None:
            bad = True
            break
        cur = nxt
        if cur is first:
            bad = None      # a loop or a recursion: only that it assembles
            break
    lines = ["#pragma version 8"]
    for i in range(consts):
        lines += ["const int %s = %d" % (word(env, ["?", "A?"][i], "c%d" % i).replace("a", "A"), i + 1)]
    lines += CONSTRUCTS if ctrl == 1 else []
    if ctrl == 2:
        lines += ["inner_group:", "inner_txn:", "TypeEnum: Pay", "end", "end"]
    lines += action(first)
    for d in top:
        lines += text(d)
    src = "\n".join(str.__str__(l) for l in lines) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        plain = all(plain_name(env, n) for n in names)
        if plain and not bad and bad is not None:
            env.fail("valid program rejected: %s" % r.err)
        return env.reached()
    if bad:
        env.fail("accepted, but a name is defined twice in its scope or not defined")
    p = wellformed(env, r)
    if bad is None:
        return env.reached()
    w = avm.World()
    out = avm.execute(p, w, lambda l: None, fuel=2000)
    if ctrl == 1 or ctrl == 2:
        ran = [a for (k, i, a, l) in w.events if k == "log"]
    else:
        ran = [a for (k, i, a, l) in w.events]
    if out.kind != "exit":
        env.fail("the program fails: %r" % (out,))
    if len(ran) != len(expect):
        env.fail("%d definitions ran, %d expected" % (len(ran), len(expect)))
    env.check_all([("definition %d that runs" % j, core.D.b_goal(a[0], core.D.b_lit(str(e).encode()))) for j, (a, e) in enumerate(zip(ran, expect))] or [("reached", True)])


def plain_name(env, n):
    t = env.lift(n)
    return len(t) < 3 and bool(t[0] == "a" or t[0] == "c") and not (len(t) == 2 and bool(t[1] == "_"))


def constant_names(env, n, what):
    """definitions named like constants"""
    dom = frozenset(map(ord, "AB"))
    c = str.__str__(env.sym_text("c", n, dom))
    d = str.__str__(env.sym_text("d", n, dom))
    body = {
        "block": ["jump %s" % d, "block %s:" % d, 'log("b")', "exit(%s)" % c, "end"],
        "switch": ["switch Txn.Fee:", "%s: %s" % (c, d), "else: %s" % d, "end", "block %s:" % d, 'log("b")', "exit(%s)" % c, "end"],
        "inner block": ["jump aa", "block aa:", "jump %s" % d, "block %s:" % d, 'log("b")', "exit(%s)" % c, "end", "end"],
        "func": ["%s()" % d, "exit(%s)" % c, "func %s():" % d, 'log("b")', "return", "end"],
        "router": ["router:", d, "end", "@public()", "func %s():" % d, 'log("b")', "return", "end"],
    }[what]
    src = "\n".join(["#pragma version 8", "const int %s = 5" % c] + body) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        return env.reached()
    p = wellformed(env, r)
    if what == "router":
        return env.reached()
    w = avm.World()
    out = avm.execute(p, w, lambda l: None, fuel=500)
    if out.kind != "exit" or len(w.events) != 1:
        env.fail("the program gives %r with %d effects" % (out, len(w.events)))
    env.check(out.value == 5, "value of the constant")


# ---------------------------------------------------------------- many of a kind
def many(env, kind, n):
    x = env.sym_int("k", 0, n)
    xi = Var("x")
    body, fs, blocks = [Decl(tint(), "x", uin(0))], [], []
    from vlib.lang import If, While, For, Func, Return, Block, Jump, Switch, Assert
    for i in range(n):
        if kind == "if":
            body.append(If([(False, Bin("==", xi, Int(i)), [mark(i)])], None))
        elif kind == "ifelse":
            body.append(If([(False, Bin("<", xi, Int(i)), [mark(i)])], [If([(True, Bin("!=", xi, Int(i)), [mark(100 + i)])], None)]))
        elif kind == "func":
            fs.append(Func("ff%d" % i, [("q%d" % i, tint())], [tint()], [Return(Bin("+", Var("q%d" % i), Int(1)))]))
            body.append(Asg("x", CallF("ff%d" % i, [xi])) if i % 3 else If([(False, Bin("==", xi, Int(i)), [Asg("x", CallF("ff%d" % i, [xi]))])], None))
        elif kind == "while":
            body.append(While(False, Bin("==", xi, Int(i)), [mark(i), Asg("x", Int(1000))]))
    if kind == "elif":
        body.append(If([(False, Bin("==", xi, Int(i)), [mark(i)]) for i in range(n)], [mark(1000)]))
    if kind == "nest":
        inner = [mark(1000)]
        for i in range(n):
            inner = [If([(False, Bin(">", xi, Int(i)), inner)], [mark(i)])]
        body += inner
    env.run_program(Prog([Note("#pragma version 8")] + body + [put("x", xi), Exit(Int(1))] + fs))


def many_text(env, kind, n):
    """programs of which only well-formedness and the selected part are looked at"""
    L = ["#pragma version 8", "int x = Txn.Fee"]
    tail = []
    if kind == "for":
        for i in range(n):
            L += ["for i%d in 0:2:" % i, "x = x", "end"]
    elif kind == "for_":
        for i in range(n):
            L += ["for _ in 0:2:", "x = x", "end"]
    elif kind == "switch":
        L += ["switch x:"] + ["%d: b%d" % (i, i) for i in range(n)] + ["else: other", "end"]
        for i in range(n):
            tail += ["block b%d:" % i, "exit(%d)" % (100 + i), "end"]
        tail += ["block other:", "exit(1)", "end"]
    elif kind == "blocks":
        L += ["jump b0"]
        for i in range(n):
            tail += ["block b%d:" % i, "jump inner", "block inner:", "jump b%d" % (i + 1) if i + 1 < n else "exit(100)", "end", "end"]
    elif kind == "router":
        L += ["router:"] + ["m%d" % i for i in range(n)] + ["end"]
        for i in range(n):
            tail += ["@public()", "func m%d(p%d: int) int:" % (i, i), "return p%d + %d" % (i, i), "end"]
    elif kind == "inner":
        for i in range(n):
            L += ["inner_group:", "inner_txn:", "TypeEnum: Pay", "Fee: %d" % i, "end", "inner_txn:", "TypeEnum: Axfer", "end", "end"]
    elif kind == "assert":
        for i in range(n):
            L += ['assert(x != %d, "m%d")' % (i, i)]
    elif kind == "nestedfunc":
        L += ["x = f0(x)"]
        for i in range(n):
            tail += ["func f%d(a%d: int) int:" % (i, i), "if a%d:" % i, "a%d = a%d" % (i, i), "end", "return %s" % ("f%d(a%d)" % (i + 1, i) if i + 1 < n else "7")]
        tail += ["end"] * n
    if kind not in ("switch", "blocks", "router"):
        L += ["exit(1)"]
    src = "\n".join(L + tail) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    if not r.ok:
        env.fail("valid program rejected: %s" % r.err)
    p = wellformed(env, r)
    w = avm.World()
    out = avm.execute(p, w, lambda l: None, fuel=5000)
    env.trace = [("outcome", out.kind, None)]
    v = avm.txn_field("Fee", avm.group_index())
    if kind == "switch":
        env.check(out.kind == "exit" and out.value == (v + 100 if v < n else 1), "selected option")
    elif kind == "blocks":
        env.check(out.value == 100, "last block")
    elif kind == "inner":
        fees = [a for (k, i, a, l) in w.events if k == "itxn_field" and i == ("Fee",)]
        env.check(len(fees) == n and core.and_(*[a[0] == j for j, a in enumerate(fees)]), "fees in order")
    elif kind == "assert":
        env.check((out.kind == "exit") == (not bool(v < n)), "which assertion fails")
    else:
        env.reached()


# ---------------------------------------------------------------- immediates
IMM = ["int y = Gtxn[@].Fee", "bytes y = Txn.ApplicationArgs[@]", "bytes y = Gtxn[@].ApplicationArgs[@]", "bytes y = Gtxn[0].ApplicationArgs[@]", "bytes y = extract(@, 4, Txn.Note)", "bytes y = extract(4, @, Txn.Note)",
       "bytes y = substring(@, @, Txn.Note)", "int y = gload(@, @)", "int y = gloads(@, 1)", "bytes y = Itxn.Logs[@]", "int y = load(@)", "store(@, 4)", "int y = Gtxn[+@].Fee", "int y = Gtxn[-@].Fee",
       "bytes y = Gtxn[+@].ApplicationArgs[@]", "bytes y = replace(@, Txn.Note, Txn.Lease)", "bytes y = replace2(@, Txn.Note, Txn.Lease)", "int y = dig(@, 3)", "int y = gaid(@)", "bytes y = arg(@)", "int y = itob(@)", "bytes y = Rpad(Txn.Note, @)",
       "bytes y = ToBytes(Txn.Fee, @)", "bytes y = bzero(@)", "bytes[@] y = Rpad(Txn.Note, @)", "bytes y = Convert(Txn.Fee, bytes[@])", "bytes[@] y = Cast(Txn.Note, bytes[@])", "int y = gitxn(@, Fee)", "int y = pushint(@)", "int y = intc(@)",
       "push(@)", "popn(@)", "inner_txn:\n    ApplicationArgs[@]: \"a\"\nend", "for i in @:@:\n    log(itob(i))\nend", "bytes y = uncover(@, Txn.Note)", "int y = SizeOf(uint8[@])", "int y = frame_dig(@)", "int y = block(@, 3)"]


def immediate(env, k, const):
    v = env.sym_int("v", 0, 70000)
    w = env.sym_int("w", 0, 70000)
    text = IMM[k]
    if "substring" in text:
        env.assume(v <= w)
    pre = []
    parts = text.split("@")
    vals = ["%s" % v, "%s" % w]
    if const:
        pre = ["const int NUM = %s" % v]
        vals[0] = "NUM"
    out = parts[0]
    for j, q in enumerate(parts[1:]):
        out += vals[j % 2] + q
    src = "\n".join(["#pragma version 8"] + pre + [out, "exit(1)"]) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        return env.reached()
    wellformed(env, r) if k not in STACKY else assembles(env, r)
    env.reached()


STACKY = {i for i, t in enumerate(IMM) if t.startswith(("int y = dig(", "popn", "push(", "bytes y = uncover", "int y = frame_dig"))}


def assembles(env, r):
    try:
        return env.assemble(r.lines)
    except AsmError as e:
        env.fail("emitted TEAL does not assemble: %s" % e)


def struct_sizes(env, kind):
    from vlib.lang import Struct
    a = env.sym_int("a", 1, 4096)
    b = env.sym_int("b", 1, 4096)
    env.assume(a + b <= 4080)
    v = {"struct": ["Item s = UncheckedCast(Txn.Note, Item)"], "box": ['box<Item> s = Box("k")'], "open": ['box<Item> s = OpenBox("k")'], "create": ['box<Item> s = CreateBox("k")']}[kind]
    f = env.choose(4, "f")
    use = ['log(s.fa)', "log(itob(s.fb))", "log(s.fc)", "s.fa = bzero(%s)\ns.fb = 4\ns.fc = bzero(%s)\ns.fd = 7" % (a, b)][f]
    src = "\n".join(["#pragma version 8", "struct Item:", "fa: bytes[%s]" % a, "fb: int", "fc: bytes[%s]" % b, "fd: uint8", "end"] + v + [use, "exit(1)"]) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    if not r.ok:
        env.fail("valid program rejected: %s" % r.err)
    wellformed(env, r)
    env.trace = [("outcome", "accepted", None)]
    env.reached()


def slots(env, kind):
    n = [1, 16, 199, 200, 201, 210, 255, 256, 257, 300][env.choose(10, "n")]
    if kind == "main":
        L = ["int v%d = %d" % (i, i) for i in range(n)] + ["exit(1)"]
    elif kind == "func":
        L = ["exit(ff())", "func ff() int:"] + ["int v%d = %d" % (i, i) for i in range(n)] + ["return 1", "end"]
    elif kind == "mixed":
        L = ["int w%d = %d" % (i, i) for i in range(n // 2)] + ["exit(ff())", "func ff() int:"] + ["int v%d = %d" % (i, i) for i in range(n - n // 2)] + ["return 1", "end"]
    elif kind == "group":
        L = ["int v%d = %d" % (i, i) for i in range(n)] + ["inner_group:", "inner_txn:", "TypeEnum: Pay", "end", "end", "exit(1)"]
    src = "\n".join(["#pragma version 8"] + L) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        if n < 200:
            env.fail("program with %d variables rejected: %s" % (n, r.err))
        return env.reached()
    wellformed(env, r)
    env.reached()


# ---------------------------------------------------------------- version line
def pragma(env, place, n):
    d = str.__str__(env.sym_text("d", 1, frozenset(map(ord, "123456789")))) + str.__str__(env.sym_text("e", n - 1, frozenset(map(ord, "0123456789"))))
    line = "#pragma version " + d
    rest = ["int x = 1", "if x:", "x = 2", "end", "exit(x)"]
    L = {
        "first": [line] + rest,
        "comment": ["# about", "# more", line] + rest,
        "blank": ["", "", line] + rest,
        "struct": ["struct Item:", "a: int", "end", line] + rest,
        "const": ["const int NUM = 4", line] + rest,
        "code": rest[:1] + [line] + rest[1:],
        "twice": [line, line] + rest,
        "end": rest + [line],
        "inside": rest[:2] + [line] + rest[2:],
        "none": rest,
        "block": rest[:-1] + ["jump aa", "block aa:", line, "exit(1)", "end"],
        "func": rest + ["func ff():", line, "return", "end"],
    }[place]
    src = "\n".join(L) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        if place == "first":
            env.fail("valid program rejected: %s" % r.err)
        return env.reached()
    code = [l for l in r.lines if avm.tokens_of_line(l)]
    if place == "none":
        return env.reached()
    if place in ("twice",):
        code = code[1:]
    env.check(env.lift(code[0]) == env.lift("#pragma version " + d), "the version line of the TEAL")
    assembles(env, r)


STRIDE = {"c01": 4, "c02": 12, "c03": 4, "c04": 8, "c05": 10, "c06": 8, "c08": 20, "c09": 8, "c10": 10, "c11": 10, "c12": 5}


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for mod, k in STRIDE.items():
        m = importlib.import_module("props." + mod)
        js = m.jobs("quick")
        for (name, fn, params, *rest) in (js if deep else js[::k]):
            out.append(("compiled/%s/%s" % (mod, name), "compiled", dict(mod=mod, fn=fn, params=params), *rest))
    for s, shape in enumerate(SHAPES):
        n = HOLES[s]
        tops = len(shape)
        for f1, form in enumerate(FORMS):
            for i in range(n):
                if not deep and (f1 + i + s) % 3:
                    continue
                forms = ["?"] * n
                forms[i] = form
                ctrl = 1 if form.startswith("l") else 2 if "itxn" in form else 0
                out.append(("names/%d/%s" % (s, " ".join(forms)), "naming", dict(shape=s, forms=forms, start=(f1 + i) % tops, ctrl=ctrl)))
                if deep:
                    for j in range(n):
                        if j != i:
                            g = list(forms)
                            g[j] = "??"
                            out.append(("names/%d/%s" % (s, " ".join(g)), "naming", dict(shape=s, forms=g, start=(f1 + i) % tops, ctrl=ctrl)))
        for st in range(tops):
            out.append(("names/%d/symbolic/%d" % (s, st), "naming", dict(shape=s, forms=["??" if (i + st) % 2 == 0 else "a?" for i in range(n)], start=st, ctrl=0)))
    for what in ("block", "switch", "inner block", "func", "router"):
        for n in (2, 3):
            out.append(("constants/%s/%d" % (what, n), "constant_names", dict(n=n, what=what)))
    for kind in ("if", "ifelse", "func", "while", "elif", "nest"):
        out.append(("many/%s" % kind, "many", dict(kind=kind, n=12 if not deep else 40)))
    for kind in ("for", "for_", "switch", "blocks", "router", "inner", "assert", "nestedfunc"):
        out.append(("many/%s" % kind, "many_text", dict(kind=kind, n=12 if not deep else 40)))
    for k in range(len(IMM)):
        for c in (0, 1):
            out.append(("immediate/%d/%d" % (k, c), "immediate", dict(k=k, const=c)))
    for kind in ("struct", "box", "open", "create"):
        out.append(("size/%s" % kind, "struct_sizes", dict(kind=kind)))
    for kind in ("main", "func", "mixed", "group"):
        out.append(("slots/%s" % kind, "slots", dict(kind=kind)))
    for place in ("first", "comment", "blank", "struct", "const", "code", "twice", "end", "inside", "none", "block", "func"):
        for n in (1, 2) + ((3,) if deep else ()):
            out.append(("pragma/%s/%d" % (place, n), "pragma", dict(place=place, n=n)))
    return out
