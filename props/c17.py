"""C17 literals and constants reach the TEAL with exactly their value"""
from .common import *
from vlib import core, avm
from vlib.core import AsmError, IllTyped, U64

ID = "C17"
BOUNDS = {
    "strings": "contents of 2 (thorough 3) symbolic characters, and one symbolic character before or after (quick: one of the two) each of 36 words with a meaning in Tealish or TEAL, "
               "at about 60 places where a program can contain a string (every statement and expression form, also inside functions, blocks and loops, single "
               "quoted, and after minify_teal); a symbolic character stands for all printable ASCII characters, tab, CR, VT, NBSP, U+00E9, U+0663, U+0800, "
               "U+2028 and U+1F600",
    "integers": "1-3 symbolic characters out of digits and underscore at 24 places; 17-21 symbolic digits in expressions and constants, all values",
    "hex": "constants of 1-4 (thorough 6) symbolic hexadecimal digits of either case",
    "names": "every OnCompletion and TypeEnum name at 9 places; constants with symbolic names of 2-3 characters out of A, B, 0, 9 and _ at 14 places, alone and "
             "with another constant whose name contains the first one's",
}
ASSUMPTIONS = [
    "vlib/avm.py reads TEAL string, hexadecimal and integer literals as go-algorand's assembler does",
    "string contents with an escape sequence TEAL does not have are outside (the assembler reports them)",
]
LEVEL = "translation_validation"
TECHNIQUE = ("symbolic execution of the compiler on programs whose literals consist of symbolic characters, execution of the emitted TEAL with them, "
             "z3 equality with independently decoded values")
NOTE = "Within the bounds of the evidence file every literal and constant has in the executed TEAL exactly the value that the source text denotes"
LIMITS = {"deadline": 150}

CHARS = frozenset(list(range(32, 127)) + [9, 11, 13, 0xA0, 0xE9, 0x663, 0x800, 0x2028, 0x1F600])
ESC = {"n": 10, "r": 13, "t": 9, "\\": 92, '"': 34}


class Outside(Exception):
    """the text is not the contents of one literal"""


def decode(env, body, quote='"'):
    """bytes that the text between the quotes denotes"""
    out, i = [], 0
    body = env.lift(body)
    while i < len(body):
        c = body[i]
        i += 1
        if c == quote:
            raise Outside("quote")
        if c == "\\":
            if i >= len(body):
                raise Outside("backslash at the end")
            d = body[i]
            i += 1
            if d == "x":
                h = body[i:i + 2]
                i += 2
                if len(h) < 2 or any(x not in "0123456789abcdefABCDEF" for x in h):
                    raise Outside("hex escape")
                out.append(int(h, 16))
            elif d == quote:
                out.append(ord(quote))
            elif d in 'nrt\\"':
                out.append({"n": 10, "r": 13, "t": 9, "\\": 92, '"': 34}[d])
            else:
                raise Outside("escape")
        else:
            out += list(c.encode("utf-8"))
    return out


B = lambda t: list(t.encode())      # noqa: E731
PAIR = ["func pair(a: int, b: bytes) int, bytes:", "return a, b", "end"]
ONE = ["exit(1)"]
AA = ["block aa:", "log(\"A\")", "exit(2)", "end"]
BB = ["block bb:", "log(\"B\")", "exit(3)", "end"]
HEAD = ["#pragma version 8"]
ITEM = ["struct Item:", "id: int", "data: bytes[2]", "end"]
V = ["int x = 1", "bytes s = \"ab\""]
ARG = ["bytes s = Txn.ApplicationArgs[0]"]


def log(*cells):
    return [("log", (), [[c for x in cells for c in x]])]


def arg0():
    return avm.txn_field("ApplicationArgs", avm.group_index(), 0)


def is_arg(s):
    return core.D.b_eq(arg0(), core.D.b_cells(s))


def typed(s, then):
    """only strings of two bytes are accepted"""
    return then(s) if len(s) == 2 else None


# name -> (program with @@ in place of the contents, expectation: cells -> (events, exit value), None = rejected)
PLACES = {
    "log": (HEAD + ['log("@@")'] + ONE, lambda s: (log(s), 1)),
    "log comment": (HEAD + ['log("@@") # "c" (d)'] + ONE, lambda s: (log(s), 1)),
    "concat": (HEAD + ['log(Concat("@@", "b"))'] + ONE, lambda s: (log(s, B("b")), 1)),
    "concat last": (HEAD + ['log(Concat("a", "@@"))'] + ONE, lambda s: (log(B("a"), s), 1)),
    "concat three": (HEAD + ['log(Concat("(", "@@", ")"))'] + ONE, lambda s: (log(B("("), s, B(")")), 1)),
    "concat twice": (HEAD + ['log(concat("@@", concat("#", "@@")))'] + ONE, lambda s: (log(s, B("#"), s), 1)),
    "declaration": (HEAD + ['bytes t = "@@"', "log(t)"] + ONE, lambda s: (log(s), 1)),
    "declaration comment": (HEAD + ['bytes t = "@@" # c', "log(t)"] + ONE, lambda s: (log(s), 1)),
    "assignment": (HEAD + V + ['s = "@@"', "log(s)"] + ONE, lambda s: (log(s), 1)),
    "multiple assignment": (HEAD + V + ['x, s = pair(2, "@@")', "log(s)", "exit(x)"] + PAIR, lambda s: (log(s), 2)),
    "multiple assignment expression": (HEAD + V + ['_, s = pair(2, Concat("@@", "="))', "log(s)", "exit(x)"] + PAIR, lambda s: (log(s, B("=")), 1)),
    "constant": (HEAD + ['const bytes NAM = "@@"', "log(NAM)"] + ONE, lambda s: (log(s), 1)),
    "constant comment": (HEAD + ['const bytes NAM = "@@" # c', 'const bytes AM = "//"', "log(NAM)", "log(AM)"] + ONE, lambda s: (log(s) + log(B("//")), 1)),
    "constant argument": (HEAD + ['const bytes NAM = "@@"', "log(Concat(NAM, NAM))"] + ONE, lambda s: (log(s, s), 1)),
    "constant size": (HEAD + ['const bytes NAM = "@@"', "bytes[2] t = NAM", "log(t)"] + ONE, lambda s: typed(s, lambda s: (log(s), 1))),
    "constant condition": (HEAD + ['const bytes NAM = "@@"', "bytes s = Txn.ApplicationArgs[0]", "if s == NAM:", "exit(3)", "end"] + ONE,
                           lambda s: ([], 3 if is_arg(s) else 1)),
    "function argument": (HEAD + ['ff("@@")'] + ONE + ["func ff(s: bytes):", "log(s)", "return", "end"], lambda s: (log(s), 1)),
    "function arguments": (HEAD + ['ff("b", "@@", ",")'] + ONE + ["func ff(s: bytes, t: bytes, u: bytes):", "log(s)", "log(t)", "log(u)", "return", "end"],
                           lambda s: (log(B("b")) + log(s) + log(B(",")), 1)),
    "sized argument": (HEAD + ['ff("@@")'] + ONE + ["func ff(s: bytes[2]):", "log(s)", "return", "end"], lambda s: typed(s, lambda s: (log(s), 1))),
    "return": (HEAD + ["log(ff())"] + ONE + ["func ff() bytes:", 'return "@@"', "end"], lambda s: (log(s), 1)),
    "return comment": (HEAD + ["log(ff())"] + ONE + ["func ff() bytes:", 'return "@@" # a, b', "end"], lambda s: (log(s), 1)),
    "sized return": (HEAD + ["log(ff())"] + ONE + ["func ff() bytes[2]:", 'return "@@"', "end"], lambda s: typed(s, lambda s: (log(s), 1))),
    "returns": (HEAD + V + ["int y", "x, s, y = ff()", "log(s)", "log(itob(y))", "exit(x)"] + ["func ff() int, bytes, int:", 'return 5, "@@", 7', "end"],
                lambda s: (log(s) + log([0] * 7 + [7]), 5)),
    "returns calls": (HEAD + V + ["bytes y", "s, y = ff()", "log(s)", "log(y)"] + ONE +
                      ["func ff() bytes, bytes:", 'return Concat("@@", ","), concat("@@", ")")', "end"], lambda s: (log(s, B(",")) + log(s, B(")")), 1)),
    "returns last": (HEAD + V + ["x, s = ff()", "log(s)", "exit(x)"] + ["func ff() int, bytes:", 'return 5, "@@"', "end"], lambda s: (log(s), 5)),
    "returns first": (HEAD + V + ["s, x = ff()", "log(s)", "exit(x)"] + ["func ff() bytes, int:", 'return "@@", (1 + 4)', "end"], lambda s: (log(s), 5)),
    "if": (HEAD + ARG + ['if s == "@@":', "exit(3)", "end"] + ONE, lambda s: ([], 3 if is_arg(s) else 1)),
    "if comment": (HEAD + ARG + ['if s == "@@": # c:', "exit(3)", "end"] + ONE, lambda s: ([], 3 if is_arg(s) else 1)),
    "if not": (HEAD + ARG + ['if not ("@@" == s):', "exit(3)", "end"] + ONE, lambda s: ([], 1 if is_arg(s) else 3)),
    "elif": (HEAD + ARG + ['if s == "0":', "exit(4)", 'elif "@@" == s:', "exit(3)", "else:", "exit(5)", "end"] + ONE,
             lambda s: ([], 4 if is_arg(B("0")) else 3 if is_arg(s) else 5)),
    "while": (HEAD + ARG + ['while s != "@@":', 's = "@@"', "end", "log(s)"] + ONE, lambda s: (log(s), 1)),
    "for": (HEAD + ["for i in 0:2:", 'log("@@")', "end"] + ONE, lambda s: (log(s) + log(s), 1)),
    "switch option": (HEAD + ARG + ["switch s:", '"@@": aa', "else: bb", "end"] + AA + BB, lambda s: (log(B("A")), 2) if is_arg(s) else (log(B("B")), 3)),
    "switch expression": (HEAD + ['switch Concat("@@", "a"):', '"a": aa', "else: bb", "end"] + AA + BB,
                          lambda s: (log(B("A")), 2) if not s else (log(B("B")), 3)),
    "switch call": (HEAD + ["switch 1:", 'btoi("@@"): aa', "else: bb", "end"] + AA + BB,
                    lambda s: (([], "panic") if len(s) > 8 else (log(B("A")), 2) if word(s) == 1 else (log(B("B")), 3))),
    "inner transaction": (HEAD + ["inner_txn:", 'Note: "@@"', "end"] + ONE,
                          lambda s: ([("itxn_begin", (), []), ("itxn_field", ("Note",), [s]), ("itxn_submit", (), [])], 1)),
    "inner transaction array": (HEAD + ["inner_txn:", 'ApplicationArgs[0]: "@@" # c', 'Note: Concat("@@", ":")', "end"] + ONE,
                                lambda s: ([("itxn_begin", (), []), ("itxn_field", ("ApplicationArgs",), [s]),
                                            ("itxn_field", ("Note",), [s + B(":")]), ("itxn_submit", (), [])], 1)),
    "assert": (HEAD + ARG + ['assert("@@" == s)'] + ONE, lambda s: ([], 1 if is_arg(s) else "panic")),
    "assert and message": (HEAD + ARG + ['assert("@@" == s, "m, \\"n\\"")'] + ONE, lambda s: ([], 1 if is_arg(s) else "panic")),
    "assert message": (HEAD + ["int x = 1", 'assert(x, "@@")'] + ONE, lambda s: ([], 1)),
    "assert call message": (HEAD + ["int x = 1", 'assert(len(Concat("a", ",")) == 2, "@@")'] + ONE, lambda s: ([], 1)),
    "put": (HEAD + ['app_global_put("@@", 1)'] + ONE, lambda s: ([("app_global_put", (), [s, 1])], 1)),
    "put value": (HEAD + ['app_global_put("a", "@@")'] + ONE, lambda s: ([("app_global_put", (), [B("a"), s])], 1)),
    "local put": (HEAD + ['app_local_put(0, "a=", "@@")'] + ONE, lambda s: ([("app_local_put", (), [0, B("a="), s])], 1)),
    "struct field": (HEAD + ITEM + ["Item v = bzero(10)", 'v.data = "@@"', "log(v)"] + ONE, lambda s: typed(s, lambda s: (log([0] * 8, s), 1))),
    "box": (HEAD + ITEM + ['box<Item> v = CreateBox("@@")', "v.id = 3", "exit(v.id)"], lambda s: ("any", 3) if not avm.World().box(core.D.b_cells(s))[0] else ("any", "panic")),
    "sized declaration": (HEAD + ['bytes[2] t = "@@"', "log(t)"] + ONE, lambda s: typed(s, lambda s: (log(s), 1))),
    "sized assignment": (HEAD + ["bytes[2] t", 't = "@@"', "log(t)"] + ONE, lambda s: typed(s, lambda s: (log(s), 1))),
    "push": (HEAD + ["bytes t", 'push("@@")', "t = pop()", "log(t)"] + ONE, lambda s: (log(s), 1)),
    "exit": (HEAD + ['exit(len("@@"))'], lambda s: ([], len(s))),
    "exit sum": (HEAD + ['exit((1 + len("@@")) + 2) # ) + 1'], lambda s: ([], len(s) + 3)),
    "group": (HEAD + ARG + ['exit(("@@" == s))'], lambda s: ([], 1 if is_arg(s) else 0)),
    "operator": (HEAD + ["int t = \"@@\" == \"@@\"", "exit(t)"], lambda s: ([], 1)),
    "cast": (HEAD + ['log(Cast("@@", bytes))'] + ONE, lambda s: (log(s), 1)),
    "immediates": (HEAD + ['log(extract(1, 1, "@@"))'] + ONE, lambda s: (log(s[1:2]), 1) if len(s) >= 2 else ([], "panic")),
    "substring": (HEAD + ['log(substring3("@@", 0, 1))'] + ONE, lambda s: (log(s[:1]), 1) if s else ([], "panic")),
    "array index": (HEAD + ['log(Txn.ApplicationArgs[len("@@")])'] + ONE,
                    lambda s: ([("log", (), [avm.txn_field("ApplicationArgs", avm.group_index(), len(s))])], 1)),
    "group index": (HEAD + ['exit(Gtxn[len("@@")].Fee)'], lambda s: ([], avm.txn_field("Fee", len(s)))),
    "nested": (HEAD + ["ff()"] + ONE + ["func ff():", "int i = 0", "while i < 1:", "if i == 0:", 'log("@@")', "end", "i = i + 1", "end", "return",
                                        "func gg():", 'log("@@")', "return", "end", "end"], lambda s: (log(s), 1)),
    "block": (HEAD + ["jump main", "block main:", 'const bytes NAM = "@@"', "log(NAM)", 'log("@@")', "exit(1)", "end"], lambda s: (log(s) + log(s), 1)),
    "inner group": (HEAD + ["inner_group:", "inner_txn:", 'Note: "@@"', "end", "end"] + ONE,
                    lambda s: ([("itxn_begin", (), []), ("itxn_field", ("Note",), [s]), ("itxn_submit", (), [])], 1)),
    "teal": (HEAD + ["teal:", 'byte "@@" // c', "log", "end"] + ONE, lambda s: (log(s), 1)),
    "single quotes": (HEAD + ["log('@@')"] + ONE, lambda s: (log(s), 1)),
    "single quotes constant": (HEAD + ["bytes t = Concat('@@', \"'\")", "log(t)"] + ONE, lambda s: (log(s, B("'")), 1)),
    "two": (HEAD + ['log(Concat("@@", "\\"", "@@"))'] + ONE, lambda s: (log(s, B('"'), s), 1)),
}


def word(s):
    v = 0
    for c in s:
        v = v * 256 + c
    return v


def value(x):
    return core.D.b_cells(x) if isinstance(x, list) else x


def run(env, lines, line_of, want, what):
    events, exit_ = want
    try:
        prog = env.assemble(lines)
    except AsmError as e:
        env.fail("%s does not assemble: %s" % (what, e))
    w = avm.World()
    try:
        out = avm.execute(prog, w, line_of, fuel=600)
    except IllTyped as e:
        env.fail("%s is ill-typed: %s" % (what, e))
    if exit_ == "panic":
        if out.kind != "panic":
            env.fail("%s gives %r, it should fail" % (what, out))
    elif out.kind != "exit":
        env.fail("%s gives %r" % (what, out))
    goals = []
    if events != "any":
        if len(events) != len(w.events) and exit_ != "panic":
            env.fail("%s: %d effects, expected %d" % (what, len(w.events), len(events)))
        for (k1, i1, a1, l), (k2, i2, a2) in zip(w.events, events):
            if k1 != k2 or i1 != i2 or len(a1) != len(a2):
                env.fail("%s: effect %s%r, expected %s%r" % (what, k1, i1, k2, i2))
            for x, y in zip(a1, a2):
                goals.append(("%s: operand of %s" % (what, k1), env.value_goal(value(y), x)))
    if exit_ != "panic":
        goals.append((what + ": exit value", env.value_goal(value(exit_), out.value)))
    env.check_all(goals)
    return w


def settle(env, lines, expect):
    """compile; expect: None = must be rejected, else a function () -> (events, exit)"""
    src = env.lift("\n".join(str.__str__(l) for l in lines))
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if expect is None:
        if r.ok:
            env.fail("accepted, but the value does not fit")
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("%s: %s" % (r.kind, r.err))
        env.reached()
        return None
    if not r.ok:
        env.fail("valid program rejected: %s: %s" % (r.kind, r.err))
    w = run(env, r.lines, lambda l: None, expect, "TEAL")
    return r, w


def string_at(env, place, body):
    lines, expect = PLACES[place]
    quote = "'" if place.startswith("single") else '"'
    try:
        cells = decode(env, body, quote)
    except Outside:
        env.trace = [("outcome", "outside", None)]
        env.reached()
        return
    got = settle(env, [l.replace("@@", str.__str__(body)) for l in lines], expect(cells))
    if got is None:
        return
    r, w = got
    if place.endswith("message"):
        msgs = [m for m in r.tmap.errors.values()]
        want = 'm, \\"n\\"' if place == "assert and message" else body
        if (len(msgs) != 1 if want else msgs not in ([], [""])) or any( not m == env.lift(want) for m in msgs):
            env.fail("assert messages are %s" % msgs)
    if place == "box":
        keys = [k for k, _, _ in w.boxes]
        env.check_all([("box key", core.D.b_goal(k, core.D.b_cells(cells))) for k in keys])
    from tealish.utils import minify_teal, strip_comments
    run(env, [env.lift(l) for l in minify_teal(r.lines)[0]], lambda l: None, expect(cells), "minified TEAL")
    run(env, [env.lift(l) for l in strip_comments(r.lines)], lambda l: None, expect(cells), "TEAL without comments")


def strings(env, place, n):
    string_at(env, place, str.__str__(env.sym_text("c", n, CHARS)) if n else "")


WORDS = [
    "end", "if x:", "x = 1", "#pragma version 3", "// c", "a//b", "://", ", ", "):", "box<A>", "return", "l0_end", "b main", "int 5", "base64 //", "b64", "\\x00",
    "\\xfF", "\\\"", "\\\\", "%s", "{x}", "{0}", "@public()", "exit(0)", "NAM", "A: b", "\\n", ";", " + ", "func f():", "_", "0x00", "'", "a\\\"b", "jump aa # c",
]


def words(env, place, after, some):
    ws = WORDS[some::2] if some >= 0 else WORDS
    w = ws[env.choose(len(ws), "word")]
    c = str.__str__(env.sym_text("c", 1, CHARS))
    string_at(env, place, w + c if after else c + w)


# ---------------------------------------------------------------- integers
def nat(env, text):
    """value of an integer literal; None: it is not one"""
    text = env.lift(text)
    if text.startswith("_") or text.endswith("_") or "__" in text:
        return None
    v = 0
    for c in text:
        if not c == "_":
            v = v * 10 + (ord(c) - 48)
    return v


def small(v, hi, then):
    return then(v) if v <= hi else None


def u64(v, then):
    return then(v) if v < U64 else None


def double(v):
    return ([], v + v) if v + v < U64 else ([], "panic")


# what an index of 256 or more means is decided by C05; `then` gets a number up to 999
NUMBERS = {
    "exit": (HEAD + ["exit(@@)"], lambda v: u64(v, lambda v: ([], v))),
    "declaration": (HEAD + ["int y = @@ # 4", "exit(y)"], lambda v: u64(v, lambda v: ([], v))),
    "assignment": (HEAD + V + ["x = @@", "exit(x)"], lambda v: u64(v, lambda v: ([], v))),
    "operand": (HEAD + V + ["x = @@ + @@", "exit(x)"], lambda v: u64(v, double)),
    "equal": (HEAD + V + ["x = (@@ == @@) + 1", "exit(x)"], lambda v: u64(v, lambda v: ([], 2))),
    "if": (HEAD + ["int x = Txn.Fee", "if x == @@:", "exit(3)", "end"] + ONE,
           lambda v: u64(v, lambda v: ([], 3 if avm.txn_field("Fee", avm.group_index()) == v else 1))),
    "switch option": (HEAD + ["int x = Txn.Fee", "switch x:", "@@: aa", "else: bb", "end"] + AA + BB,
                      lambda v: u64(v, lambda v: (log(B("A")), 2) if avm.txn_field("Fee", avm.group_index()) == v else (log(B("B")), 3))),
    "return": (HEAD + ["exit(ff())"] + ["func ff() int:", "return @@", "end"], lambda v: u64(v, lambda v: ([], v))),
    "returns": (HEAD + ["int x", "int y", "x, y = ff()", "log(itob(x))", "exit(y)"] + ["func ff() int, int:", "return @@, 2", "end"],
                lambda v: u64(v, lambda v: ([("log", (), [core.D.b_itob(v)])], 2))),
    "argument": (HEAD + ["exit(ff(@@))"] + ["func ff(a: int) int:", "return a", "end"], lambda v: u64(v, lambda v: ([], v))),
    "put": (HEAD + ["app_global_put(\"a\", @@)"] + ONE, lambda v: u64(v, lambda v: ([("app_global_put", (), [B("a"), v])], 1))),
    "inner": (HEAD + ["inner_txn:", "Fee: @@", "end"] + ONE,
              lambda v: u64(v, lambda v: ([("itxn_begin", (), []), ("itxn_field", ("Fee",), [v]), ("itxn_submit", (), [])], 1))),
    "assert": (HEAD + ["assert(Txn.Fee == @@)"] + ONE, lambda v: u64(v, lambda v: ([], 1 if avm.txn_field("Fee", avm.group_index()) == v else "panic"))),
    "push": (HEAD + ["int t", "push(@@)", "t = pop()", "exit(t)"], lambda v: u64(v, lambda v: ([], v))),
    "group": (HEAD + ["exit((@@ + @@))"], lambda v: u64(v, double)),
    "constant": (HEAD + ["const int NUM = @@", "exit(NUM)"], lambda v: u64(v, lambda v: ([], v))),
    "constant comment": (HEAD + ["const int NUM = @@ # 9", "exit(NUM + NUM)"], lambda v: u64(v, double)),
    "for": (HEAD + ["int n = 0", "for i in 0:3:", "n = n + @@", "end", "exit(n)"], lambda v: u64(v, lambda v: ([], 3 * v) if 3 * v < U64 else ([], "panic"))),
    "for start": (HEAD + ["int n = 5", "for i in @@:@@:", "n = 6", "end", "exit(n)"], lambda v: u64(v, lambda v: ([], 5))),
    "index": (HEAD + ["log(Txn.ApplicationArgs[@@])"] + ONE,
              lambda v: u64(v, lambda v: ([("log", (), [avm.txn_field("ApplicationArgs", avm.group_index(), v)])], 1))),
    "group transaction": (HEAD + ["exit(Gtxn[@@].Fee)"], lambda v: small(v, 15, lambda v: ([], avm.txn_field("Fee", v)))),
    "relative": (HEAD + ["exit(Gtxn[+@@].Fee)"],
                 lambda v: small(v, U64 - 1, lambda v: ([], avm.txn_field("Fee", avm.group_index() + v)) if avm.group_index() + v < U64 else ([], "panic"))),
    "immediate": (HEAD + V + ["log(extract(@@, 1, bzero(300)))"] + ONE, lambda v: small(v, 255, lambda v: (log([0]), 1))),
    "size": (HEAD + ["exit(SizeOf(bytes[@@]))"], lambda v: u64(v, lambda v: ([], v))),
    "rpad": (HEAD + ["exit(len(Rpad(\"\", @@)))"], lambda v: small(v, 999, lambda v: ([], v))),
}
PLAIN = {"constant", "constant comment", "relative", "size"}      # no underscores there
NOT_64 = {"size", "rpad", "index", "relative"}
DIGITS = frozenset(map(ord, "0123456789"))
DIGITS_ = frozenset(map(ord, "0123456789_"))


def integer(env, place, n, digits):
    lines, expect = NUMBERS[place]
    text = str.__str__(env.sym_text("d", n, DIGITS if digits else DIGITS_))
    v = nat(env, text)
    if v is None or place in PLAIN and "_" in env.lift(text):
        env.trace = [("outcome", "outside", None)]
        lines = [l.replace("@@", text) for l in lines]
        src = env.lift("\n".join(lines))
        env.notes["source"] = src
        r = env.compile(src)
        if r.ok:
            env.fail("accepted, but it is no integer")
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("%s: %s" % (r.kind, r.err))
        env.reached()
        return
    settle(env, [l.replace("@@", text) for l in lines], expect(v))


HEX = frozenset(map(ord, "0123456789abcdefABCDEF"))
HEX_PLACES = {
    "log": (["const bytes NAM = 0x@@", "log(NAM)"], lambda s: (log(s), 1)),
    "comment": (["const bytes NAM = 0x@@ # c", "log(Concat(NAM, NAM))"], lambda s: (log(s, s), 1)),
    "sized": (["const bytes NAM = 0x@@", "bytes[2] t = NAM", "log(t)"], lambda s: typed(s, lambda s: (log(s), 1))),
    "function": (["const bytes NAM = 0x@@", "log(ff(NAM))", "exit(1)", "func ff(a: bytes) bytes:", "return concat(a, NAM)", "end"], lambda s: (log(s, s), 1)),
}


def hexes(env, place, n):
    lines, expect = HEX_PLACES[place]
    text = str.__str__(env.sym_text("h", n, HEX))
    lines = HEAD + [l.replace("@@", text) for l in lines] + (ONE if "exit(1)" not in lines else [])
    if n % 2:
        settle(env, lines, None)
        return
    t = env.lift(text)
    cells = [int(t[i:i + 2], 16) for i in range(0, n, 2)]
    settle(env, lines, expect(cells))


# ---------------------------------------------------------------- names
ENUMS = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4, "DeleteApplication": 5,
         "Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6}
ENUM_PLACES = {
    "exit": (["exit(@@)"], lambda v: ([], v)),
    "operand": (["exit(@@ + 1)"], lambda v: ([], v + 1)),
    "equal": (["if Txn.OnCompletion == @@:", "exit(9)", "end", "exit(8)"], lambda v: ([], 9 if avm.txn_field("OnCompletion", avm.group_index()) == v else 8)),
    "argument": (["exit(ff(@@))", "func ff(a: int) int:", "return a", "end"], lambda v: ([], v)),
    "return": (["exit(ff())", "func ff() int:", "return @@", "end"], lambda v: ([], v)),
    "inner": (["inner_txn:", "TypeEnum: @@", "end", "exit(1)"],
              lambda v: ([("itxn_begin", (), []), ("itxn_field", ("TypeEnum",), [v]), ("itxn_submit", (), [])], 1)),
    "inner OnCompletion": (["inner_txn:", "OnCompletion: @@", "end", "exit(1)"],
                           lambda v: ([("itxn_begin", (), []), ("itxn_field", ("OnCompletion",), [v]), ("itxn_submit", (), [])], 1)),
    "switch": (["switch Txn.OnCompletion:", "@@: aa", "else: bb", "end"] + AA + BB,
               lambda v: (log(B("A")), 2) if avm.txn_field("OnCompletion", avm.group_index()) == v else (log(B("B")), 3)),
    "switch itself": (["switch @@:", "3: aa", "else: bb", "end"] + AA + BB, lambda v: (log(B("A")), 2) if v == 3 else (log(B("B")), 3)),
}


def enums(env, place):
    names = sorted(ENUMS)
    n = names[env.choose(len(names), "name")]
    lines, expect = ENUM_PLACES[place]
    settle(env, HEAD + [l.replace("@@", n) for l in lines], expect(ENUMS[n]))


FIRST = frozenset(map(ord, "AB"))
REST = frozenset(map(ord, "AB09_"))
NAME_PLACES = {
    "exit": (["exit(@@)"], lambda v: ([], v)),
    "sum": (["exit(@@ + 1)"], lambda v: ([], v + 1) if v + 1 < U64 else ([], "panic")),
    "twice": (["exit(@@ + @@)"], lambda v: double(v)),
    "declaration": (["int y = @@", "exit(y)"], lambda v: ([], v)),
    "log": (["log(itob(@@)) # @@", "exit(1)"], lambda v: ([("log", (), [core.D.b_itob(v)])], 1)),
    "string": (["log(\"@@ //\")", "log(\"@@\")", "exit(@@)"], None),
    "return": (["exit(ff())", "func ff() int:", "return @@", "end"], lambda v: ([], v)),
    "argument": (["exit(ff(@@))", "func ff(a: int) int:", "return a", "end"], lambda v: ([], v)),
    "if": (["if @@ == 0:", "exit(3)", "end", "exit(4)"], lambda v: ([], 3 if v == 0 else 4)),
    "switch": (["switch Txn.Fee:", "@@: aa", "else: bb", "end"] + AA + BB,
               lambda v: (log(B("A")), 2) if avm.txn_field("Fee", avm.group_index()) == v else (log(B("B")), 3)),
    "switch itself": (["switch @@:", "5: aa", "else: bb", "end"] + AA + BB, lambda v: (log(B("A")), 2) if v == 5 else (log(B("B")), 3)),
    "index": (["log(Txn.ApplicationArgs[@@])", "exit(1)"], lambda v: ([("log", (), [avm.txn_field("ApplicationArgs", avm.group_index(), v)])], 1)),
    "inner": (["inner_txn:", "Fee: @@", "end", "exit(1)"],
              lambda v: ([("itxn_begin", (), []), ("itxn_field", ("Fee",), [v]), ("itxn_submit", (), [])], 1)),
    "for": (["int n = 0", "for i in @@:@@:", "n = 1", "end", "exit(n)"], lambda v: ([], 0)),
}


def names(env, place, n, other):
    """a constant with a symbolic name (and value); other: position of a second one with a longer or equal name"""
    name = str.__str__(env.sym_text("n", 1, FIRST)) + str.__str__(env.sym_text("m", n - 1, REST))
    v = env.sym_int("v", 0, U64 - 1)
    lines, expect = NAME_PLACES[place]
    lines = [l.replace("@@", name) for l in lines]
    consts = ["const int %s = %s" % (name, v)]
    if other:
        second = str.__str__(env.sym_text("o", 1, FIRST)) + str.__str__(env.sym_text("p", n, REST))
        if env.lift(second).startswith(env.lift(name)) or other < 3:
            consts.insert(other % 2, "const int %s = 77" % second)
    if expect is None:
        text = [ord(c) if ord(c) < 0xE000 else None for c in name]
        cells = list(env.lift(name).encode("utf-8"))
        want = (log(cells, B(" //")) + log(cells), v)
    else:
        want = expect(v)
    settle(env, HEAD + consts + lines, want)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for k, p in enumerate(PLACES):
        out.append(("string/%s/0" % p, "strings", dict(place=p, n=0)))
        out.append(("string/%s/1" % p, "strings", dict(place=p, n=1)))
        out.append(("string/%s/2" % p, "strings", dict(place=p, n=2)))
        if deep:
            out.append(("string/%s/3" % p, "strings", dict(place=p, n=3), {"deadline": 1500}))
        for after in (0, 1):
            out.append(("word/%s/%d" % (p, after), "words", dict(place=p, after=after, some=-1 if deep else (k + after) % 2)))
    for p in NUMBERS:
        for n in (1, 2, 3) + ((4, 5) if deep else ()):
            out.append(("integer/%s/%d" % (p, n), "integer", dict(place=p, n=n, digits=False)))
        if p not in NOT_64:
            for n in (17, 19, 20, 21) + ((6, 10, 15, 18, 25) if deep else ()):
                out.append(("integer/%s/%d digits" % (p, n), "integer", dict(place=p, n=n, digits=True)))
    for p in HEX_PLACES:
        for n in (1, 2, 3, 4) + ((5, 6) if deep else ()):
            out.append(("hex/%s/%d" % (p, n), "hexes", dict(place=p, n=n)))
    for p in ENUM_PLACES:
        out.append(("enum/" + p, "enums", dict(place=p)))
    for p in NAME_PLACES:
        out.append(("name/%s/2" % p, "names", dict(place=p, n=2, other=0)))
        out.append(("name/%s/3" % p, "names", dict(place=p, n=3, other=0)))
        for o in (1, 2):
            out.append(("name/%s/2 and another, %d" % (p, o), "names", dict(place=p, n=2, other=o)))
    return out
