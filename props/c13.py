"""C13 source map"""
import base64
import json
from .common import *
from vlib import core, avm
from vlib.lang import (Struct, SField, FSet, BoxDecl, Switch, Teal, InnerTxn, InnerGroup, Router, Enum, ConstDef, Std, taddr, tuint8, tbytes, tint,
                       Unchecked)

ID = "C13"
BOUNDS = {
    "programs": "every statement kind with a failing instruction in each of its expressions, in main, blocks, functions, conditionals and loops "
                "(two deep), with comments, blank lines and trailing comments in every position",
    "failures": "all run-time values: every instruction that can fail is attributed on every path",
    "maps": "TealishMap with up to 4 program counters, 3 TEAL lines, 3 source lines, all numbers symbolic, entries equal or different; "
            "assembler source maps with up to 4 entries chosen from the VLQ codes for line deltas -1..3 and no entry",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "the assembler's source map counts TEAL lines from 0 (as documented in algosdk.source_map), Tealish's maps from 1",
    "program counters of the real assembler are replaced by arbitrary increasing ones (the assembler is not available offline)",
]


class LineWorld(avm.World):
    """records the source lines visited"""

    def __init__(self):
        self._line = None
        self.visits = []
        self.teal_op = None
        super().__init__()

    @property
    def line(self):
        return self._line

    @line.setter
    def line(self, v):
        self._line = v
        if v is None or self.teal_op in ("b", "retsub", "callsub"):
            return
        if not self.visits or self.visits[-1] != v:
            self.visits.append(v)


def follow(env, visited, ref):
    """the lines of the executed instructions are those of the executed statements, in order"""
    p = 0
    for v in visited:
        q = p
        while q < len(ref) and not (v in ref[q] if isinstance(ref[q], frozenset) else v == ref[q]):
            q += 1
        if q == len(ref):
            env.fail("an instruction of line %s runs after line %s; the source goes on with %s" % (
                v, ref[p] if p < len(ref) else None, ref[p:p + 6]))
        p = q


def vlq(n):
    """base64 VLQ of one signed number"""
    n = (-n << 1 | 1) if n < 0 else n << 1
    out = ""
    while True:
        d, n = n & 31, n >> 5
        out += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[d | (32 if n else 0)]
        if not n:
            return out


def sourcemap(pcs):
    """the assembler's map for {pc: TEAL line from 0}"""
    out, last = [], 0
    for pc in range(max(pcs) + 1 if pcs else 0):
        if pc in pcs:
            out.append("AA" + vlq(pcs[pc] - last) + "A")
            last = pcs[pc]
        else:
            out.append("")
    return {"version": 3, "sources": ["x.teal"], "names": [], "mappings": ";".join(out)}


def whole(env, prog, lines, tmap, nlines):
    """totality, inverse, messages, literal markers, assembler map, JSON"""
    from tealish.utils import TealishMap
    if set(tmap.teal_tealish) != set(range(1, len(lines) + 1)):
        env.fail("map has no entry for TEAL lines %s" % sorted(set(range(1, len(lines) + 1)) ^ set(tmap.teal_tealish))[:5])
    helpers = next((i for i, l in enumerate(lines) if "_itxn_group_begin:" in l), len(lines))
    for t, l in tmap.teal_tealish.items():
        if not (1 <= l <= nlines or (l == 0 and t > helpers - 2)):
            env.fail("TEAL line %d maps to line %s of %d" % (t, l, nlines))
    if tmap.errors != prog.msgs:
        env.fail("messages %r, expected %r" % (tmap.errors, prog.msgs))
    src = env.notes["source"].split("\n")
    for i, l in enumerate(lines):
        for w in avm_words(l):
            if w.isdigit() and 70000 <= int(w) < 80000:
                at = [k + 1 for k, x in enumerate(src) if w in x]
                if len(at) == 1 and tmap.teal_tealish[i + 1] != at[0]:
                    env.fail("TEAL line %d (%s) maps to line %s, expected %s" % (i + 1, l.strip(), tmap.teal_tealish[i + 1], at[0]))
    # an assembler map: an instruction per line, some of them two bytes
    pcs, pc = {}, 1
    teal_pc = {}
    for i, l in enumerate(lines):
        code = l.split("//")[0].strip()
        if code and not code.startswith("#"):
            pcs[pc] = i
            teal_pc[i + 1] = pc
            pc += 1 + i % 2
    sm = sourcemap(pcs)
    tmap.update_from_teal_sourcemap(sm)
    back = TealishMap(json.loads(json.dumps(tmap.as_dict())))
    for m in (tmap, back):
        for t in range(1, len(lines) + 1):
            if m.get_tealish_line_for_teal(t) != tmap.teal_tealish[t]:
                env.fail("lookup of TEAL line %d" % t)
        for l in range(0, nlines + 2):
            if sorted(m.get_teal_lines_for_tealish(l)) != [t for t in range(1, len(lines) + 1) if tmap.teal_tealish[t] == l]:
                env.fail("TEAL lines of line %d: %s" % (l, m.get_teal_lines_for_tealish(l)))
        for t, c in teal_pc.items():
            if m.get_teal_line_for_pc(c) != t:
                env.fail("program counter %d is at TEAL line %s, expected %s" % (c, m.get_teal_line_for_pc(c), t))
            if m.get_tealish_line_for_pc(c) != tmap.teal_tealish[t]:
                env.fail("program counter %d is at line %s, expected %s" % (c, m.get_tealish_line_for_pc(c), tmap.teal_tealish[t]))
            if m.get_error_for_pc(c) != prog.msgs.get(tmap.teal_tealish[t]):
                env.fail("message for program counter %d" % c)
    return teal_pc


def avm_words(l):
    return l.split("//")[0].replace(";", " ").split()


def go(env, prog, fuel=4, trail=False):
    env.world_class = LineWorld
    src = prog.source()
    if trail:
        out, intl = [], False
        for k, l in enumerate(src.split("\n")):
            s = l.strip()
            if s == "teal:":
                intl = True
            elif s == "end":
                intl = False
            out.append(l + (" # %d, x = \"y\": 5" % k if k and s and not intl and not s.startswith("#") else ""))
        src = "\n".join(out)
    res = env.run_program(prog, fuel=fuel, src=src)
    ref, w1, out, w2 = env.last
    follow(env, w2.visits, w1.visits)
    teal_pc = whole(env, prog, res.lines, res.tmap, len(src.split("\n")))
    if out.kind == "panic" and not isinstance(ref.line, frozenset):
        pc = teal_pc[w2.teal_line]
        if res.tmap.get_tealish_line_for_pc(pc) != ref.line or res.tmap.get_error_for_pc(pc) != prog.msgs.get(ref.line):
            env.fail("failure at program counter %d is at line %s with message %r; expected line %s with %r" % (
                pc, res.tmap.get_tealish_line_for_pc(pc), res.tmap.get_error_for_pc(pc), ref.line, prog.msgs.get(ref.line)))
    env.reached()


N = [70000]


def lit():
    """a literal that occurs once"""
    N[0] += 1
    return Int(N[0])


def fi(k, i=0):
    """an int expression that can fail"""
    return [lambda: Bin("-", uin(i), lit()), lambda: Bin("/", lit(), uin(i)), lambda: CallF("fi", [uin(i)]), lambda: Op("btoi", [], [bin_(i)]),
            lambda: Bin("+", Bin("*", uin(i), lit()), Int(1)), lambda: Cast(uin(i), tuint8()),
            lambda: Op("extract_uint16", [], [bin_(i), uin(i)]), lambda: Bin("%", Int(9), Bin("-", uin(i), uin(i + 1)))][k]()


def fb(k, i=0):
    """a byte expression that can fail"""
    return [lambda: Op("substring3", [], [bin_(i), uin(i), uin(i + 1)]), lambda: Cast(bin_(i), tbytes(5)), lambda: CallF("fb", [bin_(i)]),
            lambda: Op("extract3", [], [bin_(i), Int(0), uin(i)]), lambda: Concat(bin_(i), Op("bzero", [], [uin(i)])),
            lambda: Op("replace3", [], [bin_(i), uin(i), bin_(i + 1)]), lambda: Op("setbyte", [], [bin_(i), uin(i), Int(1)]),
            lambda: Op("itob", [], [Bin("-", uin(i), uin(i + 1))])][k]()


S = lambda: Struct("Item", [("n", tint()), ("u", tuint8()), ("s", tbytes(5))])


def funcs():
    return [Func("fi", [("x", tint())], [tint()], [Assert(Bin("<", Var("x"), lit()), "fi: too big"), Return(Bin("+", Var("x"), Int(1)))]),
            Func("fb", [("x", tbytes())], [tbytes()], [Assert(Op("len", [], [Var("x")])), Return(Var("x"))]),
            Func("two", [("x", tint())], [tint(), tbytes()], [Return(Bin("-", Var("x"), lit()), Op("itob", [], [Var("x")]))])]


KINDS = ["decl", "declb", "asg", "multi", "put", "log", "assert", "assertmsg", "if", "elif", "while", "for", "forvar", "under", "fset", "fsetu", "fsets", "fread",
         "box", "boxc", "boxset", "exit", "switch", "opt", "itxn", "group", "teal", "err", "jump", "nested", "funcbody", "return", "deep", "ifelse", "key"]


def stmts(st, kind, k):
    """statements with a failing instruction; st: the struct; after: what follows"""
    n = len(KINDS)
    if kind == "decl":
        return [Decl(tint(), "a", fi(k)), put("a", Var("a"))]
    if kind == "declb":
        return [Decl(tbytes(), "a", fb(k)), put("a", Var("a"))]
    if kind == "asg":
        return [Decl(tint(), "a"), Asg("a", fi(k)), Asg("a", Bin("+", Var("a"), lit())), put("a", Var("a"))]
    if kind == "multi":
        return [Decl(tint(), "a"), Decl(tbytes(), "b"), Asg(["a", "b"], CallF("two", [fi(k)])), put("a", Var("a")), Asg(["_", "b"], CallF("two", [uin(3)])), put("b", Var("b"))]
    if kind == "put":
        return [put("a", fi(k)), put("b", fb(k, 2))]
    if kind == "log":
        return [ExprStmt(Op("log", [], [fb(k)])), mark(1)]
    if kind == "assert":
        return [Assert(fi(k)), mark(1), Assert(Bin("==", uin(4), lit()))]
    if kind == "assertmsg":
        return [Assert(fi(k), "first: not ok"), mark(1), Assert(Bin("==", uin(4), lit()), "second // message; #1 (x = 2)"), Assert(uin(5)), Assert(uin(6), "third")]
    if kind == "if":
        return [If([(False, fi(k), [mark(1), put("x", lit())])]), mark(2)]
    if kind == "ifelse":
        return [If([(True, fi(k), [mark(1), put("x", lit())])], [put("y", fi(k, 3))]), mark(2)]
    if kind == "elif":
        return [If([(False, uin(5), [mark(1)]), (True, fi(k), [mark(2)]), (False, fi(k, 2), [put("x", lit())])], [Assert(uin(6), "else")]), mark(3)]
    if kind == "while":
        return [Decl(tint(), "w", Int(0)), While(False, Bin("<", Var("w"), fi(k)), [Asg("w", Bin("+", Var("w"), Int(1))), put("w", Var("w"))]), mark(2)]
    if kind == "for":
        return [For("i", Int(0), Int(2), [put("i", fi(k)), Assert(Bin("<", Var("i"), uin(4)), "loop")]), mark(2)]
    if kind == "forvar":
        return [Decl(tint(), "a", fi(k)), Decl(tint(), "b", uin(3)), For("i", Var("a"), Var("b"), [mark(1)]), mark(3)]
    if kind == "under":
        return [Decl(tint(), "a", uin(3)), For(None, Int(0), Var("a"), [put("i", fi(k)), Assert(uin(4), "loop")]), mark(3)]
    if kind == "fset":
        return [Decl(st.type, "s", Cast(bin_(5), st.type)), FSet("s", "n", fi(k)), put("s", SField("s", "n"))]
    if kind == "fsetu":
        return [Decl(st.type, "s", Cast(bin_(5), st.type)), FSet("s", "u", Cast(fi(k), tuint8())), put("s", SField("s", "u"))]
    if kind == "fsets":
        return [Decl(st.type, "s", Cast(bin_(5), st.type)), FSet("s", "s", Cast(fb(k), tbytes(5))), put("s", SField("s", "s"))]
    if kind == "fread":
        return [Decl(st.type, "s", Unchecked(bin_(5), st.type)), Decl(tint(), "q", SField("s", "n")), put("s", SField("s", "s")), put("q", Bin("-", SField("s", "u"), lit()))]
    if kind == "key":
        return [BoxDecl(st, "b", "Open", fb(k)), put("b", SField("b", "s"))]
    if kind == "box":
        return [BoxDecl(st, "b", "Open", Str("key")), put("b", Bin("-", SField("b", "n"), uin(3)))]
    if kind == "boxc":
        return [BoxDecl(st, "b", "Create", Str("key")), FSet("b", "u", Cast(fi(k), tuint8())), BoxDecl(st, "c", "Create", bin_(5)), mark(2)]
    if kind == "boxset":
        return [BoxDecl(st, "b", "", bin_(5)), FSet("b", "n", fi(k)), FSet("b", "s", Cast(fb(k), tbytes(5))), put("b", SField("b", "s"))]
    if kind == "exit":
        return [If([(False, uin(5), [Exit(fi(k))])]), mark(2)]
    if kind == "switch":
        return [If([(False, uin(5), [Switch(fi(k), [(Int(1), "one"), (Int(2), "two")])])]), mark(2)]
    if kind == "opt":
        return [If([(False, uin(5), [Switch(uin(6), [(fi(k), "one"), (Int(2), "two")], "one")])]), mark(2)]
    if kind == "itxn":
        return [InnerTxn([("Fee", None, lit()), ("Amount", None, fi(k)), ("Note", None, fb(k)), ("ApplicationArgs", 0, bin_(3)), ("ApplicationArgs", 1, fb(k, 4))]), mark(2)]
    if kind == "group":
        return [InnerGroup([InnerTxn([("Fee", None, fi(k))]), Assert(uin(5), "in group"), InnerTxn([("#", None, "remark"), ("Note", None, fb(k))])]), mark(2)]
    if kind == "teal":
        def fn(c):
            v = prim(c.w, "btoi", [], [avm.txn_field("Note", avm.group_index())])[0]
            c.w.emit("log", [], [prim(c.w, "itob", [], [v])[0]])
        return [Teal(["txn Note", "btoi", "// a comment", "itob; log"], fn), mark(1), put("x", fi(k))]
    if kind == "err":
        return [If([(False, fi(k), [Err()])]), mark(1)]
    if kind == "jump":
        return [If([(False, fi(k), [Jump("one")]), (True, uin(5), [mark(2), Jump("two")])], [mark(3)]), mark(4)]
    if kind == "nested":
        return [If([(False, uin(5), [While(False, uin(6), [If([(True, fi(k), [put("x", fi(k, 2)), Break()])], [Assert(uin(7), "deep"), Break()])])])]), mark(3)]
    if kind == "funcbody":
        return [ExprStmt(CallF("work", [fi(k)])), mark(1), put("r", CallF("calc", [Int(3)]))]
    if kind == "return":
        return [put("r", Bin("+", CallF("calc", [fi(k)]), CallF("calc", [lit()])))]
    if kind == "deep":
        return [put("r", Bin("+", CallF("fi", [CallF("fi", [fi(k)])]), Op("len", [], [CallF("fb", [fb(k)])])))]


def prim(*a):
    return avm.prim(*a)


def extra(kind, k):
    if kind == "funcbody":
        return [Func("work", [("x", tint())], [], [Decl(tint(), "z", fi(k)), put("z", Bin("-", Var("z"), Var("x"))), If([(False, Var("z"), [Return()])]), Assert(Var("x"), "work"), Return()]),
                Func("calc", [("x", tint())], [tint()], [If([(False, uin(4), [Return(fi(k))])]), Return(Var("x"))])]
    if kind == "return":
        return [Func("calc", [("x", tint())], [tint()], [If([(False, uin(4), [Return(fi(k))])], [Return(fi(k, 2))]), Return(Bin("-", Var("x"), lit()))])]
    return []


def spread(stmts, how):
    """comments and blank lines at every position of every body"""
    out = []
    for s in stmts:
        for n in how:
            out.append(Note(n))
        for a in ("body", "els"):
            b = getattr(s, a, None)
            if isinstance(b, list):
                setattr(s, a, spread(b, how))
        if isinstance(s, If):
            s.arms = [(n, e, spread(b, how)) for n, e, b in s.arms]
        out.append(s)
    for n in how:
        out.append(Note(n))
    return out


LAYOUTS = [(), ("",), ("# remark",), ("# a", "", "# b = 1")]
WHERE = ["main", "block", "func", "if", "loop"]


def fails(env, kind, where, layout):
    N[0] = 70000
    st = S()
    k = env.choose(8, "expr")
    body = stmts(st, kind, k)
    tail = extra(kind, k) + funcs() + [Block("one", [mark(60), Assert(uin(3), "one"), Exit(Int(1))]), Block("two", [mark(61), Exit(fi(k, 1))])]
    if where == "main":
        main = body + [mark(90), Exit(Int(1))]
    elif where == "block":
        main = [put("m", lit()), Jump("start")]
        tail = [Block("start", body + [mark(90), Exit(Int(1))])] + tail
    elif where == "func":
        main = [put("m", lit()), ExprStmt(CallF("outer")), mark(91), Exit(uin(2))]
        tail = tail + [Func("outer", [], [], body + [mark(92), Return()])]
    elif where == "if":
        main = [If([(True, uin(7), [mark(93)])], body + [mark(94)]), mark(90), Exit(Int(1))]
    else:
        main = [Decl(tint(), "y", Int(0)), While(False, Bin("<", Var("y"), Int(2)), [Asg("y", Bin("+", Var("y"), Int(1))), put("y", Var("y"))] + body), mark(90), Exit(Int(1))]
    p = Prog([Note("#pragma version 8"), st, ConstDef("int", "LIM", "12", 12)] + (spread(main + tail, LAYOUTS[layout % 4])))
    go(env, p, trail=layout >= 4)


def router(env, k):
    """failures inside the router and the routed functions"""
    N[0] = 70000
    fs = [Func("f", [("a", tint()), ("b", tbytes(5))], [tint()], [Assert(Bin("<", Var("a"), lit()), "f"), Return(Bin("-", Var("a"), Int(1)))], "f", ["", "OnCompletion=OptIn"][k % 2]),
          Func("g", [("a", tuint8())], [], [put("a", Var("a")), Assert(Var("a")), Return()], "g")]
    main = [put("m", lit()), Assert(uin(2), "before"), Router(["f", "g"])]
    go(env, Prog([Note("#pragma version 8")] + spread(main + fs, LAYOUTS[k // 2])))


MSGS = ["plain", "a, b", "x) y", "it's", "a: b", "# no comment", "// no comment", "1 + 1 = 2", 'assert(x, y)', "(", ")", "end", "", "ü", "%d {x}", ";", "a; b"]


def messages(env, i):
    """the message is the text between the quotes"""
    N[0] = 70000
    e = [uin(0), Bin("==", bin_(0), Str("a, b")), Bin("==", bin_(0), Str('")')) if False else Bin("==", Op("len", [], [Str("x) ")]), uin(0)), CallF("fi", [uin(0)])][env.choose(4, "e")]
    st = [Assert(uin(1)), Assert(e, MSGS[i] or None), Assert(uin(2), "other"), mark(1), Exit(Int(1))]
    go(env, prog(*(st + funcs())))


def lookups(env, npc, nt, shape, most=10 ** 6):
    """TealishMap over symbolic numbers: lookups, errors and JSON agree"""
    from tealish.utils import TealishMap
    I = lambda n: env.sym_int(n, 0, most)
    pcs = [I("pc%d" % i) for i in range(npc)]
    tls = [I("t%d" % i) for i in range(npc)]
    keys = [I("k%d" % i) for i in range(nt)]
    vals = [I("s%d" % i) for i in range(nt)]
    errs = [I("e%d" % i) for i in range(shape)]
    for xs in (pcs, keys, errs):
        for i in range(len(xs)):
            for j in range(i):
                env.assume(xs[i] != xs[j])
    q, l, t = I("q"), I("l"), I("tl")
    d = {"pc_teal": dict(zip(pcs, tls)), "teal_tealish": dict(zip(keys, vals)), "errors": {e: "message %d" % i for i, e in enumerate(errs)}}
    m = TealishMap(d)

    def look(ks, vs, x):
        for k, v in zip(ks, vs):
            if k == x:
                return v
        return None

    def eq(a, b):
        return (a is None) == (b is None) and (a is None or a == b)

    def verify(m, tag):
        goals = []
        wt = look(pcs, tls, q)
        wl = None if wt is None else look(keys, vals, wt)
        we = None if wl is None else look(errs, ["message %d" % i for i in range(shape)], wl)
        goals.append((tag + "TEAL line of a program counter", eq(m.get_teal_line_for_pc(q), wt)))
        goals.append((tag + "line of a program counter", eq(m.get_tealish_line_for_pc(q), wl)))
        goals.append((tag + "message of a program counter", m.get_error_for_pc(q) == we))
        goals.append((tag + "line of a TEAL line", eq(m.get_tealish_line_for_teal(t), look(keys, vals, t))))
        got = m.get_teal_lines_for_tealish(l)
        want = [k for k, v in zip(keys, vals) if v == l]
        ok = len(got) == len(want)
        if ok:
            for a, b in zip(got, want):
                ok = core.and_(ok, a == b)
        goals.append((tag + "TEAL lines of a line", ok))
        for msg, g in goals:
            env.check(g, msg)
    verify(m, "")
    # through JSON text (numbers travel as their literals)
    dd = m.as_dict()
    text = "{%s}" % ", ".join('"%s": {%s}' % (n, ", ".join('"%s": %s' % (k, json.dumps(v) if isinstance(v, str) else str(v)) for k, v in dd[n].items()))
                              for n in ("pc_teal", "teal_tealish", "errors"))
    if set(dd) != {"pc_teal", "teal_tealish", "errors"}:
        env.fail("as_dict has the parts %s" % sorted(dd))
    import tealish.utils
    num = getattr(tealish.utils, "int", int)
    verify(TealishMap(json.loads(text, parse_int=num)), "after JSON: ")


def assembler(env, n):
    """every assembler map with n entries"""
    from tealish.utils import TealishMap
    from algosdk.source_map import SourceMap
    line, lines, segs = 0, [], []
    for i in range(n):
        d = env.choose(6, "d%d" % i)
        if d == 5:
            segs.append("")
        else:
            d -= 1
            if line + d < 0:
                d = 0
            line += d
            segs.append("AA" + vlq(d) + "A")
        lines.append(line)
    raw = {"version": 3, "sources": [], "names": [], "mappings": ";".join(segs)}
    tt = {1: 3, 2: 3, 3: 1, 4: 2, 5: 7, 6: 2}
    m = TealishMap({"teal_tealish": tt, "errors": {3: "three", 2: "two"}})
    m.update_from_teal_sourcemap(SourceMap(raw) if env.choose(2, "obj") else raw)
    for m in (m, TealishMap(json.loads(json.dumps(m.as_dict())))):
        for pc in range(n + 1):
            t = lines[pc] + 1 if pc < n else None
            l = tt.get(t)
            if m.get_teal_line_for_pc(pc) != t or m.get_tealish_line_for_pc(pc) != l or m.get_error_for_pc(pc) != {3: "three", 2: "two"}.get(l):
                env.fail("program counter %d of %r: TEAL line %s, line %s; expected %s, %s" % (
                    pc, raw["mappings"], m.get_teal_line_for_pc(pc), m.get_tealish_line_for_pc(pc), t, l))
    env.reached()


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for a, kind in enumerate(KINDS):
        for b, w in enumerate(WHERE):
            if kind == "under" and w in ("func", "loop"):
                continue        # recorded finding of C01
            for lay in (range(8) if deep else [(a + b) % 4, (a + 2 * b) % 4 + 4]):
                out.append(("fails/%s/%s/%d" % (kind, w, lay), "fails", dict(kind=kind, where=w, layout=lay)))
    for k in range(8):
        out.append(("router/%d" % k, "router", dict(k=k)))
    for i in range(len(MSGS)):
        out.append(("messages/%d" % i, "messages", dict(i=i)))
    for npc in range(0, 4 if deep else 3):
        for nt in range(0, 4 if deep else 3):
            for e in (0, 1, 2):
                # small numbers too: there a loop over lines ends
                out.append(("lookups/small/%d/%d/%d" % (npc, nt, e), "lookups", dict(npc=npc, nt=nt, shape=e, most=3), dict(deadline=120)))
                out.append(("lookups/%d/%d/%d" % (npc, nt, e), "lookups", dict(npc=npc, nt=nt, shape=e), dict(deadline=200)))
    for n in range(1, 6 if deep else 5):
        out.append(("assembler/%d" % n, "assembler", dict(n=n)))
    return out
