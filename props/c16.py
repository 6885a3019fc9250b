"""C16 every input compiles or is rejected with a located error, never silently altered"""
import re

from .common import *
from vlib import core, refparse
from vlib.refparse import Reject

ID = "C16"
BOUNDS = {
    "characters": "every statement form and expression form of a catalogue (about 90 lines in context), one symbolic character inserted at, or replacing, every "
                  "position; 40 lines with a hole of 2 (thorough 3) symbolic characters and whole lines of 3 (thorough 4) of them; "
                  "a symbolic character stands for all printable ASCII characters, tab, CR, VT, NBSP, U+2028, U+0663 and U+00E9",
    "structure": "20 contexts (program, func, nested func, block, if, elif, else, while, for, switch, router, struct, inner_txn, inner_group, teal, decorator) with "
                 "2-3 (thorough 3-4) lines chosen from a vocabulary of 36 line forms; catalogue programs cut off after every line, with one line removed or "
                 "repeated and with lines appended",
}
ASSUMPTIONS = [
    "the reference parser (vlib/refparse.py), written from the language guide, accepts a superset of the programs without type errors",
    "the canonical spelling of an accepted program (every token of the line once, fixed spacing) is compiled by the same compiler; that compiler's output "
    "for canonical programs is what C01..C15 decide",
]
LEVEL = "other"
EXPLANATION = ("Bounded symbolic execution of the real compiler on source text with symbolic characters (z3 integers; every comparison, search and regular "
               "expression step in the compiler and in its parser library forks on them through the solver) and lazily chosen lines. Each path stands for all "
               "texts that take it; on each path the outcome is compared with an independent parser running on the same symbolic text.")
TECHNIQUE = "symbolic execution of the compiler on symbolic source characters (z3), compared with an independent parser on every path"
NOTE = ("Within the bounds of the evidence file every text is compiled or rejected with ParseError/CompileError naming a line, texts the reference parser rejects "
        "are rejected, and accepted ones give the TEAL of their canonical spelling")
LIMITS = {"deadline": 100}

CHARS = frozenset(list(range(32, 127)) + [9, 11, 13, 0xA0, 0xE9, 0x663, 0x2028])
LOCATED = re.compile(r"(?:at |[Ll]ine )([0-9]+)(?!x)")


def located(env, r, n):
    if r.kind not in ("ParseError", "CompileError"):
        env.fail("not compiled and not rejected: %s: %s" % (r.kind, r.err))
    m = LOCATED.search(str.__str__(r.err))
    if m is None:
        env.fail("error without a line: %s" % r.err)
    if not 1 <= int(m.group(1)) <= n:
        env.fail("error at line %s of %d: %s" % (m.group(1), n, r.err))


def joined(lines):
    out = None if lines else ""
    for l in lines:
        out = l if out is None else out + "\n" + l
    return out


NUMBER = re.compile("([0-9]+)")


def same_numbers(env, x, y):
    """equal texts whose numbers are symbolic"""
    x, y = (NUMBER.split(str.__str__(t)) for t in (x, y))
    if len(x) != len(y) or x[::2] != y[::2]:
        return False
    look = core.BACK.magic_lookup
    goals = []
    for p, q in zip(x[1::2], y[1::2]):
        if p != q:
            m, n = look(p), look(q)
            if m is None and n is None:
                return False
            goals.append(("number", (int(p) if m is None else m) == (int(q) if n is None else n)))
    env.check_all(goals)
    return True


def same_teal(env, r, q, what):
    a, b = [list(map(refparse.code, x.lines)) for x in (r, q)]
    if len(a) != len(b):
        env.fail("%s: %d TEAL lines, canonical spelling gives %d" % (what, len(a), len(b)))
    for i, (x, y) in enumerate(zip(a, b)):
        if not x == y and not same_numbers(env, x, y):
            env.fail("%s: TEAL line %d is %r, canonical spelling gives %r" % (what, i + 1, str.__str__(x), str.__str__(y)))
    if r.tmap.teal_tealish != q.tmap.teal_tealish:
        env.fail("%s: line map differs from that of the canonical spelling" % what)
    e1, e2 = r.tmap.errors, q.tmap.errors
    if sorted(e1) != sorted(e2) or any(not e1[k] == e2[k] for k in e1):
        env.fail("%s: error messages differ from those of the canonical spelling" % what)


def judge(env, lines, ref=None, must=False):
    """lines: plain or symbolic text; ref: verdict of the reference if known"""
    lines = [env.lift(l) for l in lines]
    src = joined(lines)
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        located(env, r, len(lines))
        if must:
            p = refparse.Parser(lines)
            try:
                p.parse()
            except Reject:
                pass
            else:
                if not p.lenient:
                    env.fail("valid program rejected: %s" % r.err)
        env.reached()
        return
    try:
        canon = refparse.parse(lines)
    except Reject as e:
        env.fail("accepted, but invalid: %s" % e)
    q = env.compile(joined([env.lift(l) for l in canon]))
    if not q.ok:
        env.fail("accepted, but its canonical spelling is not: %s" % q.err)
    same_teal(env, r, q, "altered")
    env.reached()


# ---- lines with symbolic characters ----
HEAD = ["#pragma version 8"]
ITEM = ["struct Item:", "id: int", "data: bytes[4]", "end"]
XY = ["int x = 1", "bytes s = \"ab\""]
PAIR = ["func pair(a: int, b: bytes) int, bytes:", "return a, b", "end"]
AA = ["block aa:", "exit(2)", "end"]
PUB = ["@public()", "func api():", "return", "end"]

# (lines before, line, lines after)
LINES = [
    ([], "#pragma version 8", ["exit(1)"]),
    (HEAD, "# a comment", ["exit(1)"]),
    (HEAD, "const int NUM = 3", ["exit(NUM)"]),
    (HEAD, 'const bytes NAM = "a#b"', ["exit(len(NAM))"]),
    (HEAD, "const bytes NAM = 0x0aFF", ["exit(len(NAM))"]),
    (HEAD, "int y", ["y = 2", "exit(y)"]),
    (HEAD, "int y = 2 # c", ["exit(y)"]),
    (HEAD, "bytes[3] t = \"abc\"", ["log(t)", "exit(1)"]),
    (HEAD, "struct Item:", ["id: int", "data: bytes[4]", "end", "exit(1)"]),
    (HEAD + ["struct Item:"], "data: bytes[4]", ["id: int", "end", "exit(SizeOf(Item))"]),
    (HEAD + ["struct Item:"], "end", ["id: int", "end", "exit(1)"]),
    (HEAD + ITEM, "Item v = bzero(12)", ["v.id = 3", "exit(v.id)"]),
    (HEAD + ITEM + ["Item v = bzero(12)"], "v.id = 3 + 4", ["exit(v.id)"]),
    (HEAD + ITEM + ["Item v = bzero(12)"], "exit(v.id)", []),
    (HEAD + ITEM, 'box<Item> v = Box("k")', ["exit(v.id)"]),
    (HEAD + ITEM, 'box<Item> v = CreateBox("k")', ["exit(v.id)"]),
    (HEAD + ITEM + ['box<Item> v = Box("k")'], "v.id = 5", ["exit(1)"]),
    (HEAD + XY, "x = 5", ["exit(x)"]),
    (HEAD + XY, "x, s = pair(x, s)", ["exit(x)"] + PAIR),
    (HEAD + XY, "_, s = pair(x, s)", ["exit(x)"] + PAIR),
    (HEAD + XY, "x = (x + 2) * (3 - x)", ["exit(x)"]),
    (HEAD + XY, "x = x b+ s", ["exit(x)"]),
    (HEAD + XY, "x = !x && ~x", ["exit(x)"]),
    (HEAD + XY, "s = s b| b~s", ["exit(x)"]),
    (HEAD + XY, "x = x >= len(s)", ["exit(x)"]),
    (HEAD + XY, "x = x != 0", ["exit(x)"]),
    (HEAD + XY, "x = Txn.Fee / Gtxn[1].Fee", ["exit(x)"]),
    (HEAD + XY, "s = Txn.ApplicationArgs[x]", ["exit(x)"]),
    (HEAD + XY, "s = Gtxn[-1].ApplicationArgs[2]", ["exit(x)"]),
    (HEAD + XY, "s = Gtxn[x + 1].Sender", ["exit(x)"]),
    (HEAD + XY, "s = Itxn.Logs[0]", ["exit(x)"]),
    (HEAD + XY, "x = Global.Round", ["exit(x)"]),
    (HEAD + XY, "s = extract(1, 2, s)", ["exit(x)"]),
    (HEAD + XY, 's = Concat(s, "a\\"b", s)', ["exit(x)"]),
    (HEAD + XY, 's = Concat("\\\\", "#")', ["exit(x)"]),
    (HEAD + XY, "s = Cast(s, bytes[2])", ["exit(x)"]),
    (HEAD + XY, "x = SizeOf(bytes[3])", ["exit(x)"]),
    (HEAD + XY, "s = Rpad(s, 10)", ["exit(x)"]),
    (HEAD + XY, "x, _ = asset_params_get(AssetTotal, x)", ["exit(x)"]),
    (HEAD + XY, "x, _ = app_global_get_ex(0, s)", ["exit(x)"]),
    (HEAD + XY, "x = OptIn", ["exit(x)"]),
    (HEAD + XY, 's = method("f()void")', ["exit(x)"]),
    (HEAD + XY, "log(itob(x))", ["exit(x)"]),
    (HEAD + XY, "app_global_put(s, x)", ["exit(x)"]),
    (HEAD + XY, "push(x)", ["x = pop()", "exit(x)"]),
    (HEAD + XY, "assert(x)", ["exit(x)"]),
    (HEAD + XY, 'assert(x == 1, "no: (a, b)")', ["exit(x)"]),
    (HEAD + XY, "exit(1)", []),
    (HEAD + XY, "jump aa", AA),
    (HEAD + XY + ["jump aa"], "block aa:", ["exit(2)", "end"]),
    (HEAD + XY + ["jump aa", "block aa:", "exit(1)"], "end", []),
    (HEAD + XY, "if x == 1:", ["s = \"\"", "end", "exit(x)"]),
    (HEAD + XY, "if not x:", ["s = \"\"", "end", "exit(x)"]),
    (HEAD + XY + ["if x:"], "elif not x:", ["s = \"\"", "end", "exit(x)"]),
    (HEAD + XY + ["if x:"], "else:", ["s = \"\"", "end", "exit(x)"]),
    (HEAD + XY + ["if x:"], "end", ["exit(x)"]),
    (HEAD + XY, "while x < 3:", ["x = x + 1", "end", "exit(x)"]),
    (HEAD + XY, "while not x:", ["x = x + 1", "end", "exit(x)"]),
    (HEAD + XY + ["while x:"], "break", ["end", "exit(x)"]),
    (HEAD + XY, "for i in 0:3:", ["log(s)", "end", "exit(x)"]),
    (HEAD + XY, "for i in x:x:", ["log(s)", "end", "exit(x)"]),
    (HEAD + XY, "for _ in 0:3:", ["log(s)", "end", "exit(x)"]),
    (HEAD + XY, "switch x:", ["1: aa", "else: aa", "end"] + AA),
    (HEAD + XY + ["switch x:"], "1 + 2: aa", ["end"] + AA),
    (HEAD + XY + ["switch x:"], '"a: b": aa', ["end"] + AA),
    (HEAD + XY + ["switch x:"], "else: aa", ["end"] + AA),
    (HEAD + XY, "router:", ["api", "end"] + PUB),
    (HEAD + XY + ["router:"], "api", ["end"] + PUB),
    (HEAD + XY + ["exit(1)"], "@public(OnCompletion=OptIn)", PUB[1:]),
    (HEAD + XY + ["exit(1)"], "@public()", PUB[1:]),
    (HEAD + XY + ["exit(1)"], "func ff():", ["return", "end"]),
    (HEAD + XY + ["exit(1)"], "func ff(a: int, b: bytes[2]) int, bytes:", ["return a, b", "end"]),
    (HEAD + XY + ["exit(1)", "func ff(a: int) int:"], "return a", ["end"]),
    (HEAD + XY + ["exit(1)", "func ff(a: int) int, bytes:"], 'return (a + 1), "x,y"', ["end"]),
    (HEAD + XY + ["exit(1)", "func ff():"], "return", ["end"]),
    (HEAD, "teal:", ["txn Fee", "pop", "end", "exit(1)"]),
    (HEAD, "inner_group:", ["inner_txn:", "Fee: 0", "end", "end", "exit(1)"]),
    (HEAD, "inner_txn:", ["Fee: 0", "end", "exit(1)"]),
    (HEAD + ["inner_txn:"], "TypeEnum: Pay", ["Fee: 0", "end", "exit(1)"]),
    (HEAD + ["inner_txn:"], 'ApplicationArgs[0]: "a: b"', ["end", "exit(1)"]),
    (HEAD + ["inner_txn:"], "# c", ["end", "exit(1)"]),
    (HEAD + ["inner_txn:"], "Fee: 1 + 2", ["end", "exit(1)"]),
    (HEAD + ["inner_txn:", "Fee: 0"], "end", ["exit(1)"]),
]


def char(env, n, insert, part, parts):
    before, line, after = LINES[n]
    spots = list(range(len(line) + insert))[part::parts]
    if not spots:
        env.reached()
        return
    i = spots[env.choose(len(spots), "position")]
    c = str.__str__(env.sym_text("c", 1, CHARS))
    judge(env, before + [line[:i] + c + line[i + (not insert):]] + after)


HOLES = [
    (HEAD + XY, "@@", ["exit(x)"]),
    (HEAD + XY, "x = @@", ["exit(x)"]),
    (HEAD + XY, "@@ = 3", ["exit(x)"]),
    (HEAD + XY, "x@@3", ["exit(x)"]),
    (HEAD + XY, "x = x@@x", ["exit(x)"]),
    (HEAD + XY, 'log("@@")', ["exit(x)"]),
    (HEAD + XY, "log('@@')", ["exit(x)"]),
    (HEAD + XY, 's = Concat("@@", "x")', ["exit(x)"]),
    (HEAD + XY, "log(s)@@", ["exit(x)"]),
    (HEAD + XY, "log(@@s)", ["exit(x)"]),
    (HEAD + XY, "log(s@@)", ["exit(x)"]),
    (HEAD + XY, "exit(x)@@", []),
    (HEAD + XY, "assert(x, @@)", ["exit(x)"]),
    (HEAD + XY, 'assert(x, "@@")', ["exit(x)"]),
    (HEAD + XY, 'assert(x)@@', ["exit(x)"]),
    (HEAD + XY, "int @@", ["exit(x)"]),
    (HEAD + XY, "int y@@", ["exit(x)"]),
    (HEAD + XY, "int y = 1@@", ["exit(y)"]),
    (HEAD + XY, "@@ y = 1", ["exit(y)"]),
    (HEAD, "const int @@ = 1", ["exit(1)"]),
    (HEAD, "const int NUM = @@", ["exit(1)"]),
    (HEAD, 'const bytes NUM = "@@"', ["exit(1)"]),
    (HEAD + XY, "if x@@:", ["end", "exit(x)"]),
    (HEAD + XY, "if @@x:", ["end", "exit(x)"]),
    (HEAD + XY, "if x:@@", ["end", "exit(x)"]),
    (HEAD + XY + ["if x:"], "end@@", ["end", "exit(x)"]),
    (HEAD + XY + ["if x:"], "el@@:", ["end", "exit(x)"]),
    (HEAD + XY + ["while x:"], "break@@", ["end", "exit(x)"]),
    (HEAD + XY, "for @@ in 0:1:", ["end", "exit(x)"]),
    (HEAD + XY, "for i in @@:1:", ["end", "exit(x)"]),
    (HEAD + XY, "for i in 0:@@", ["end", "exit(x)"]),
    (HEAD + XY, "jump aa@@", AA),
    (HEAD + XY, "jump @@", AA),
    (HEAD + XY + ["switch x:"], "1@@aa", ["end"] + AA),
    (HEAD + XY + ["switch x:"], "@@: aa", ["end"] + AA),
    (HEAD + XY + ["router:"], "@@", ["api", "end"] + PUB),
    (HEAD + XY + ["exit(1)"], "func ff(@@):", ["return", "end"]),
    (HEAD + XY + ["exit(1)"], "func ff()@@:", ["return 1", "end"]),
    (HEAD + XY + ["exit(1)"], "func ff() int@@:", ["return 1", "end"]),
    (HEAD + XY + ["exit(1)", "func ff(a: int) int:"], "return @@", ["end"]),
    (HEAD + XY + ["exit(1)", "func ff(a: int) int:"], "return a@@", ["end"]),
    (HEAD + XY + ["exit(1)", "func ff(a: int) int, int:"], "return 1@@a", ["end"]),
    (HEAD + ["inner_txn:"], "Fee@@", ["end", "exit(1)"]),
    (HEAD + ["inner_txn:"], "@@: 1", ["end", "exit(1)"]),
    (HEAD + ["struct Item:"], "@@: int", ["end", "exit(1)"]),
    (HEAD + ["struct Item:"], "id: int@@", ["end", "exit(1)"]),
    (HEAD + ["struct Item:"], "id: bytes[@@]", ["end", "exit(SizeOf(Item))"]),
    (HEAD + XY, "s = Txn.ApplicationArgs[@@]", ["exit(x)"]),
    (HEAD + XY, "s = Gtxn[@@].Sender", ["exit(x)"]),
    (HEAD + XY, "x = x @@ 1", ["exit(x)"]),
    (HEAD + XY, "x = (@@x)", ["exit(x)"]),
    (HEAD + XY, "s = extract(@@1, s)", ["exit(x)"]),
    (HEAD + XY, "s = Cast(s, bytes@@)", ["exit(x)"]),
    (HEAD + XY + ["exit(1)"], "@@", []),
    ([], "@@", HEAD + ["exit(1)"]),
    ([], "#pragma version@@", ["exit(1)"]),
]


def hole(env, n, size, first):
    """first: fixes the class of the first symbolic character (splits the work)"""
    before, line, after = HOLES[n]
    t = str.__str__(env.sym_text("t", 1, FIRST[first]))
    if size > 1:
        t += str.__str__(env.sym_text("u", size - 1, CHARS))
    judge(env, before + [line.replace("@@", t)] + after)


def codes(s):
    return frozenset(map(ord, s))


LETTER = frozenset(c for c in CHARS if chr(c).isalpha())
FIRST = [CHARS]
FIRST4 = [LETTER, codes("0123456789_\"'#"), CHARS - LETTER - codes("0123456789_\"'#")]


def line_of(env, size, first):
    t = str.__str__(env.sym_text("t", 1, FIRST4[first])) + str.__str__(env.sym_text("u", size - 1, CHARS))
    judge(env, HEAD + XY + [t, "exit(x)"])


# ---- structure ----
VOCABULARY = [
    "", "# c", 'log("x")', "exit(1)", "x = 2", "int v", "v = 1", "const int NUM = 4", "jump aa", "jump nowhere", "return", "return 1", "break", "end",
    "if x:", "elif x:", "else:", "while x:", "for i in 0:2:", "for _ in 0:2:", "block aa:", "block bb:", "func gg():", "func hh() int:", "gg()", "v = hh()",
    "@public()", "switch x:", "1: aa", "else: aa", "router:", "api", "inner_group:", "inner_txn:", "Fee: 1", "teal:", "struct Thing:", "f: int",
    "#pragma version 8",
]
TAIL = ["block aa:", "exit(2)", "end", "@public()", "func api():", "return", "end"]
TOP = HEAD + ["int x = 1"]
CONTEXTS = {
    "first lines": ([], [], ["exit(1)"]),
    "program": (TOP, [], TAIL),
    "program before exit": (TOP, [], ["exit(1)"] + TAIL),
    "program after exit": (TOP + ["exit(1)"], [], TAIL),
    "last lines": (TOP + ["exit(1)"] + TAIL, [], []),
    "func": (TOP + ["exit(1)", "func ff():"], [], ["return", "end"] + TAIL),
    "func end": (TOP + ["exit(1)", "func ff():"], [], ["end"] + TAIL),
    "func int": (TOP + ["exit(1)", "func ff() int:"], [], ["end"] + TAIL),
    "after return": (TOP + ["exit(1)", "func ff():", "return"], [], ["end"] + TAIL),
    "nested func": (TOP + ["exit(1)", "func ff():", "return", "func kk():"], [], ["end", "end"] + TAIL),
    "block": (TOP + ["jump cc", "block cc:"], [], ["end"] + TAIL),
    "block exit": (TOP + ["jump cc", "block cc:", "exit(1)"], [], ["end"] + TAIL),
    "nested block": (TOP + ["jump cc", "block cc:", "jump dd", "block dd:"], [], ["end", "end"] + TAIL),
    "if": (TOP + ["if x:"], [], ["end", "exit(1)"] + TAIL),
    "elif": (TOP + ["if x:", "elif x:"], [], ["end", "exit(1)"] + TAIL),
    "else": (TOP + ["if x:", "else:"], [], ["end", "exit(1)"] + TAIL),
    "while": (TOP + ["while x:"], [], ["end", "exit(1)"] + TAIL),
    "while in func": (TOP + ["exit(1)", "func ff():", "while x:"], [], ["end", "return", "end"] + TAIL),
    "while in if": (TOP + ["while x:", "if x:"], [], ["end", "end", "exit(1)"] + TAIL),
    "func in while": (TOP + ["exit(1)", "func ff():", "if x:"], [], ["end", "return", "end"] + TAIL),
    "for": (TOP + ["for i in 0:2:"], [], ["end", "exit(1)"] + TAIL),
    "switch": (TOP + ["switch x:"], [], ["end"] + TAIL),
    "router": (TOP + ["router:"], [], ["end"] + TAIL),
    "struct": (HEAD + ["struct Item:"], [], ["end", "int x = 1", "exit(1)"] + TAIL),
    "inner_txn": (TOP + ["inner_txn:"], [], ["end", "exit(1)"] + TAIL),
    "inner_group": (TOP + ["inner_group:"], [], ["end", "exit(1)"] + TAIL),
    "teal": (TOP + ["teal:"], [], ["end", "exit(1)"] + TAIL),
    "decorator": (TOP + ["exit(1)", "@public()"], [], ["func ff():", "return", "end"] + TAIL),
}


class Lazy:
    """lines of which some are chosen when they are first read"""

    def __init__(self, env, before, holes, after, first=None):
        self.env, self.lines, self.first = env, list(before) + [None] * holes + list(after), first
        self.start, self.holes = len(before), holes

    def __len__(self):
        return len(self.lines)

    def __getitem__(self, i):
        if self.lines[i] is None:
            k = i - self.start
            if k == 0 and self.first is not None:
                self.lines[i] = VOCABULARY[self.first]
            else:
                self.lines[i] = VOCABULARY[self.env.choose(len(VOCABULARY), "line%d" % k)]
        return self.lines[i]


def structure(env, context, holes, first):
    before, _, after = CONTEXTS[context]
    lines = Lazy(env, before, holes, after, first)
    try:
        refparse.parse(lines)
    except Reject:
        pass
    # lines the reference did not need to read are left out
    judge(env, [l for l in lines.lines if l is not None], must=True)


# ---- whole programs ----
def damaged(env, name, how, part):
    from . import c15
    src = c15.CATALOGUE[name].rstrip("\n").split("\n")
    spots = list(range(len(src)))[part::4]
    if not spots:
        env.reached()
        return
    i = spots[env.choose(len(spots), "line")]
    if how == "cut":
        src = src[:i + 1]
    elif how == "drop":
        del src[i]
    elif how == "repeat":
        src.insert(i, src[i])
    elif how == "swap":
        src[i], src[i - 1] = src[i - 1], src[i]
    elif how == "end":
        src.insert(i, "end")
    else:
        src.insert(i, VOCABULARY[env.choose(len(VOCABULARY), "what")])
    judge(env, src)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for n in range(len(LINES)):
        l = LINES[n][1]
        for insert in (1, 0):
            parts = 1 + len(l) // 20
            for p in range(parts):
                out.append(("char/%s/%s/%d" % (l, ("replace", "insert")[insert], p), "char", dict(n=n, insert=insert, part=p, parts=parts)))
    for n in range(len(HOLES)):
        out.append(("hole/%d %s" % (n, HOLES[n][1]), "hole", dict(n=n, size=3 if deep else 2, first=0)))
    for f in range(3):
        out.append(("line/%d" % f, "line_of", dict(size=4 if deep else 3, first=f)))
    for c in CONTEXTS:
        k = 3 if deep else 2
        if k < 3:
            out.append(("structure/" + c, "structure", dict(context=c, holes=k, first=None)))
        else:
            for f in range(len(VOCABULARY)):
                out.append(("structure/%s/%s" % (c, VOCABULARY[f]), "structure", dict(context=c, holes=k, first=f)))
    from . import c15
    for name in c15.CATALOGUE:
        for how in ("cut", "drop", "repeat", "swap", "end") + (("any",) if deep else ()):
            for p in range(4):
                out.append(("damaged/%s/%s/%d" % (name, how, p), "damaged", dict(name=name, how=how, part=p)))
    return [(n, f, p, {"deadline": 1500}) for n, f, p in out] if deep else out
