"""C15 formatting keeps the program"""
import contextlib
import importlib
import io
import re

from .common import *
from . import c14
from .c14 import Skip, shape
from vlib import core, avm, scen
from vlib.core import AsmError, IllTyped
from vlib.lang import Cst, Enum, ConstDef, Struct

ID = "C15"
BOUNDS = {
    "programs": "the generators of C01..C12 (every n-th job of each) and a catalogue with every kind of statement and expression; all run-time values, every "
                "uint64 (>= 0) value of the integer literals that the generators leave symbolic",
    "layouts": "8: as written; unindented with trailing blanks; tabs; growing and random indentation; blanks inside expressions and argument lists; no blanks "
               "inside expressions; blank lines; comments at every place between statements",
    "comments": "12 texts (keywords, quotes, hashes, empty, code) at every position where the language allows a line comment, one at a time and all together",
    "steps": "<= 100 instructions per run of the TEAL (thorough 300; beyond: prefixes compared); programs with identical instructions are equal without being run",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "a comment after code on the same line is not a whole-line comment (the formatter drops those)",
]
LIMITS = {"deadline": 60}
FUEL = [100]
TIER = [0]


def reformat(env, src, what):
    import tealish
    buf = io.StringIO()
    try:
        with scen.guard(), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            return tealish.reformat_program(src)
    except (core.Panic, AsmError, IllTyped):
        raise
    except scen.Hang:
        env.fail("formatting %s does not terminate" % what)
    except Exception as e:
        env.fail("%s cannot be formatted: %s: %s" % (what, type(e).__name__, e))


def magic(env):
    return bool(getattr(getattr(env, "e", None), "magic", None))


def run(env, p):
    w = env.world_class()
    try:
        return w, avm.execute(p, w, lambda l: None, fuel=FUEL[0])
    except IllTyped as e:
        return w, avm.Outcome("panic", line=w.line, why=str(e))


def same(env, a, b, what):
    try:
        pa = env.assemble(a)
    except AsmError:
        return      # not a program (C19)
    try:
        pb = env.assemble(b)
    except AsmError as e:
        env.fail("TEAL of %s does not assemble: %s" % (what, e))
    w1, o1 = run(env, pa)
    env.trace = [("outcome", o1.kind, o1.value if o1.kind == "exit" else None)] + [("event", k, i, x) for (k, i, x, l) in w1.events]
    if not magic(env) and shape(pa) == shape(pb):
        env.reached()
        return
    w2, o2 = run(env, pb)
    try:
        env.compare(o1, w1, o2, w2, False)
    except scen.Failed:
        if env_failures(env):
            env_failures(env)[-1]["message"] += " (%s)" % what
        raise


def env_failures(env):
    return getattr(env, "violations", None)


def places(text):
    """(number of statements before it, text) of every whole-line comment"""
    out, n, teal = [], 0, False
    for l in text.split("\n"):
        s = l.strip()
        if s.startswith("#") and not teal and not s.startswith("#pragma"):
            out.append((n, s))
        elif s:
            n += 1
            if s == "teal:":
                teal = True
            elif s == "end":
                teal = False
    return out


def formatted(env, src, what="the program", comments=None, teal=None):
    """obligations for one accepted source text"""
    if teal is None:
        r = env.compile(src)
        if not r.ok:
            env.fail("%s is rejected: %s: %s" % (what, r.kind, r.err))
        teal = r.lines
    env.notes["source"] = src
    f = reformat(env, src, what)
    r = env.compile(f)
    if not r.ok:
        env.fail("%s is rejected after formatting: %s: %s" % (what, r.kind, r.err))
    same(env, teal, r.lines, "the formatted program")
    a, b = places(src), places(f)
    if a != b:
        env.fail("comments of %s: %r, after formatting: %r" % (what, a, b))
    g = reformat(env, f, "formatted program")
    if g != f:
        for x, y in zip(f.split("\n"), g.split("\n")):
            if x != y:
                env.fail("formatting again changes %r to %r" % (x, y))
        env.fail("formatting again changes the number of lines")
    return f


# ---------------------------------------------------------------- layouts

STRING = re.compile(r'("(?:\\.|[^"\\])*")')
EXPR = re.compile(r"^((?:(?:if|elif|while)(?: not)? |[a-zA-Z_0-9<>\[\], ]+ = |[a-z]\w*\.\w+ = |exit\(|return ))(.*)$")


def respace(line, wide):
    """blanks inside the expressions of a line"""
    m = EXPR.match(line)
    if not m or line.startswith(("const ", "box<")):
        return line
    head, body = m.groups()
    tail = ""
    if head == "exit(":
        body, tail = body[:-1], ")"
    elif head.split(" ")[0] in ("if", "elif", "while"):
        body, tail = body[:-1], ":"
    parts = STRING.split(body)
    for i in range(0, len(parts), 2):
        p = parts[i]
        if wide:
            p = re.sub(r" (\S+) ", r"  \1   ", p)
            p = p.replace("(", "( ").replace(")", " )").replace(", ", " ,   ")
        else:
            p = p.replace(", ", ",")
            p = re.sub(r" ([-+*/%<>]|==|!=|<=|>=) ", r"\1", p)
        parts[i] = p
    return head + "".join(parts) + tail


COMMENTS = ["#", "# plain", "#x = 1", "# end", "#end", '# "open', "# it's", "# a # b // c", "#    spaces   kept", "# else:", "#const int X = 3", "# l1: b l2; 0x"]
CLOSED = ("switch ", "router:", "teal:")


def comment_spots(lines):
    """indices of lines before which a comment line may stand"""
    out, closed = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if i and not closed:
            out.append(i)
        if s.startswith(CLOSED):
            closed = True
        elif s == "end":
            closed = False
    if not closed:
        out.append(len(lines))
    return out


def with_comments(src, spots, k, step=1):
    lines = src.rstrip("\n").split("\n")
    for n, i in enumerate(reversed(spots)):
        lines.insert(i, "  " * (n % 3) + COMMENTS[(k + n * step) % len(COMMENTS)])
    return "\n".join(lines) + "\n"


def layout(src, k):
    lines = src.rstrip("\n").split("\n")
    out, teal = [], False
    for i, l in enumerate(lines):
        s = l.strip()
        if k == 1:
            l = s + "   "
        elif k == 2:
            l = "\t" * (i % 3) + s + "\t"
        elif k == 3:
            l = " " * ((i * 7) % 11) + s
        elif k == 4:
            l = l if teal else "    " * (i % 2) + respace(s, True)
        elif k == 5:
            l = l if teal else respace(s, False)
        if i == 0:
            l = s
        teal = (teal or s == "teal:") and s != "end"
        out.append(l)
    if k == 6:
        closed = ("switch ", "router:", "teal:", "inner_txn:", "struct ")
        i = 1
        depth = False
        while i < len(out):
            s = out[i].strip()
            if not depth and i % 2:
                out.insert(i, "")
                i += 1
            if s.startswith(closed):
                depth = True
            elif s == "end":
                depth = False
            i += 1
    if k == 7:
        return with_comments(src, comment_spots(lines), len(lines))
    return "\n".join(out) + "\n"


# ---------------------------------------------------------------- scenarios

def compiled(env, mod, fn, params, lay, fuel=100):
    """programs of another property's generator, in one layout"""
    FUEL[0] = fuel
    m = importlib.import_module("props." + mod)
    real = env.compile

    def one(src):
        env.notes["source"] = src
        env.compile = real
        res = real(src)
        if not res.ok:
            raise Skip()
        # one instruction stream for the program as written and for the layout
        v = layout(src, lay) if lay else src
        if lay:
            r = env.compile(v)
            if not r.ok:
                env.fail("the program is rejected in layout %d: %s: %s" % (lay, r.kind, r.err))
            same(env, res.lines, r.lines, "layout %d" % lay)
            formatted(env, v, "layout %d" % lay, teal=r.lines)
        else:
            formatted(env, src, teal=res.lines)
        raise Skip()

    def run_program(prog, src=None, **kw):
        one(prog.source() if src is None else src)
    env.run_program = run_program
    env.compile = one
    try:
        getattr(m, fn)(env, **params)
    except Skip:
        env.reached()
    finally:
        FUEL[0] = 100
        env.__dict__.pop("run_program", None)
        env.__dict__.pop("compile", None)


CATALOGUE = {
    "statements": """#pragma version 8
struct Item:
    id: int
    flags: uint8
    owner: addr
    data: bytes[10]
    raw: uint8[4]
end
const int LIMIT = 10
const bytes NAME = "na\\"me, (x: y) # // \\\\"
const addr OWNER = "abcdefghijklmnopqrstuvwxyz012345"
int x
int y = Txn.Fee + 1
bytes s = NAME
bytes[3] t = "abc"
Item item = bzero(SizeOf(Item))
item.id = y * 2
item.owner = Txn.Sender
box<Item> b1 = OpenBox("k1")
box<Item> b2 = CreateBox(Concat("k", s))
box<Item> b3 = Box(NAME)
b1.id = b2.id
b3.data = Rpad("abc", 10)
x = 1
_, x = mulw(Txn.Fee, 3)
x, y = pair(y, LIMIT)
app_global_put("m", x)
assert(x)
assert(x == y, "not equal, sorry")
if x == 1:
    x = 2
elif not y:
    x = 3
elif x < y:
    x = 5
else:
    while x < LIMIT:
        x = x + 1
        if not x == 7:
            break
        end
    end
    while not y:
        y = y + 1
    end
end
for i in 0:LIMIT:
    for k in x:3:
        log(itob(i))
    end
end
for _ in 0:3:
    log("x")
end
inner_group:
    inner_txn:
        TypeEnum: Pay
        Receiver: Txn.Sender
        ApplicationArgs[0]: "a: b"
        ApplicationArgs[1]: itob(x)
        Fee: 0
    end
    inner_txn:
        TypeEnum: Axfer
    end
end
inner_txn:
    TypeEnum: Appl
    OnCompletion: NoOp
    ApprovalProgram: s
end
teal:
    int 1; pop // teal: # x
    l_x:
end
switch x:
    1: one
    LIMIT: two
    else: three
end
func pair(a: int, b: int) int, int:
    int c = a
    return b, c + (a * 2)
end
func nothing():
    log("a")
    return
end
@public()
func api(a: uint8, n: bytes, o: addr, it: Item) bytes[3], int:
    return "abc", 3
end
@public(OnCompletion=OptIn)
func opt(x1: bytes[8]):
    return
end
block one:
    jump two
end
block two:
    int z = 3
    jump inner
    block inner:
        exit(z)
    end
    func local(q: int) int:
        return q
    end
end
block three:
    router:
        api
        opt
    end
end
""",
    "expressions": """#pragma version 8
const int NUM = 3
bytes s = "a\\"b\\\\c, d) # e // f: \\x00"
int v = 1 + 2
v = (v + 3) * (2 - (v / NUM))
v = !v
v = ~(v & 255)
v = v ^ 7
v = (v % 3) | 1
v = (v && 1) || (v != 2)
v = (v <= 3) && (v >= 1)
s = s b+ "1"
s = (s b* s) b- s
s = b~s
v = s b== s
v = s b<= s
v = Txn.Fee
v = Gtxn[0].Fee
v = Gtxn[v].Fee
v = Gtxn[+1].Fee
v = Gtxn[-2].Fee
v = Gtxn[v + 1].Fee
s = Txn.ApplicationArgs[0]
s = Txn.ApplicationArgs[v]
s = Txn.ApplicationArgs[NUM]
s = Gtxn[1].ApplicationArgs[v - 1]
s = Gtxn[-1].ApplicationArgs[2]
s = Gtxn[v].ApplicationArgs[v]
s = Itxn.Logs[0]
s = Itxn.Sender
v = Itxn.CreatedAssetID
v = Global.MinTxnFee
s = Global.CurrentApplicationAddress
v = len(s) + btoi(substring3(s, 0, len(s)))
s = extract(1, 2, s)
s = Concat(s, "b", itob(NUM))
s = Cast(s, bytes[10])
v = Cast(v, uint8)
s = ToBytes(v, 4)
v = FromBytes(s, int)
s = Rpad(s, 10)
s = Lpad(s, SizeOf(addr))
s = Address("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ")
s = ARC28Event("e(uint64,byte[])", itob(v), s)
s = UncheckedCast(s, bytes[3])
s = EnsureType(s, bytes[5])
s = Convert(v, bytes[8])
v = Convert(Cast(s, bytes[8]), uint64)
v, _ = app_global_get_ex(0, "x")
v = OptIn
v = select(v, 2, Axfer)
s = method("f(uint64)void")
s = sha256(s)
s = bzero(v)
push(v)
v = pop()
v = setbit(v, 3, 1)
Error()
exit((v + 1) * 2)
""",
    "bare": """#pragma version 6

# heading

int a = 1


exit(a)

# end

func f():

    # in f

    return
    # after return
end

# last
""",
    "minimal": "exit(1)",
    "nested": """#pragma version 8
# top
struct A:
    # in struct
    x: int
end
# after struct
jump main
# before block
block main:
    # first
    if 1:
        # in if
        if 2:
            # in inner if
            exit(3)
        else:
            # in else
            exit(4)
        end
        # after inner
    elif 3:
        # in elif
        exit(5)
    end
    # before inner_txn
    inner_txn:
        # in inner_txn
        Fee: 0
        # after field
    end
    exit(1)
    # after exit
    # before decorator
    @public()
    # between
    func f() int:
        # in func
        return 1
        # nested
        func g():
            # in g
            return
        end
        # end of f
    end
    # end of main
end
# end
""",
}


def catalogue(env, name, lay):
    src = CATALOGUE[name]
    if lay < 8:
        formatted(env, layout(src, lay), "layout %d" % lay)
        return
    # a comment at each place in turn
    spots = comment_spots(src.rstrip("\n").split("\n"))
    step = (len(spots) + 7) // 8
    part = spots[(lay - 8) * step:(lay - 7) * step]
    if not part:
        env.reached()
        return
    i = part[env.choose(len(part), "spot")]
    formatted(env, with_comments(src, [i], (env.choose(len(COMMENTS) if TIER[0] else 4, "text") + lay * 3) if lay % 2 else i), "comment before line %d:" % (i + 1))


def one_expression(env, part):
    """each assignment of the catalogue in a program of its own"""
    ls = [l for l in CATALOGUE["expressions"].split("\n")[4:-2]][part::8]
    l = ls[env.choose(len(ls), "line")]
    src = "#pragma version 8\nconst int NUM = 3\nbytes s = Txn.Note\nint v = Txn.Fee\n%s%s\nlog(itob(v))\nlog(s)\nexit(v + 1)\n" % (
        "push(5)\n" if "pop()" in l else "", l)
    formatted(env, layout(src, (0, 4, 5)[env.choose(3, "layout")]))


STRIDE = {"c01": (9, 1), "c02": (4, 1), "c03": (9, 2), "c04": (14, 3), "c05": (16, 5), "c06": (10, 3), "c07": (9, 0), "c08": (20, 0), "c09": (8, 1),
          "c10": (12, 2), "c11": (14, 3), "c12": (24, 5)}


def jobs(tier):
    deep = tier == "thorough"
    out = []
    n = 0
    for mod, (k, o) in STRIDE.items():
        m = importlib.import_module("props." + mod)
        js = m.jobs(tier)
        for (name, fn, params, *rest) in (js if deep else js[o::k]):
            for lay in ([n % 8, (n + 3) % 8] if deep else [n % 8]):
                out.append(("compiled/%s/%s/%d" % (mod, name, lay), "compiled", dict(mod=mod, fn=fn, params=params, lay=lay, fuel=300 if deep else 100), *rest))
            n += 1
    for p in range(8):
        out.append(("expression/%d" % p, "one_expression", dict(part=p)))
    TIER[0] = int(deep)
    for name in CATALOGUE:
        for lay in range(16):
            out.append(("catalogue/%s/%d" % (name, lay), "catalogue", dict(name=name, lay=lay)))
    return out
