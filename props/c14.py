"""C14 minify and strip comments"""
import importlib

from .common import *
from vlib import core, avm
from vlib.core import AsmError, IllTyped

ID = "C14"
BOUNDS = {
    "compiled programs": "the generators of C01..C12 (every n-th job of each), all run-time values",
    "TEAL texts": "two groups of adjacent labels (1..3 labels per group, 11 layouts: on adjacent lines, separated by comments, blanks, with trailing "
                  "comments, with code on the line, several on a line) x 20 forms of branching to them (b, bz, bnz, callsub, switch, match, with and without "
                  "comments, semicolons, tabs) x 7 naming schemes (names that are prefixes of each other, opcode names, names inside literals and comments)",
    "literals": "strings of <= 3 (thorough 4) characters/fragments over a 12-element alphabet of special characters x 8 ways to write the rest of the line; base64, base32, hex, "
                "method and #define lines",
    "transformations": "minify, strip, strip after minify, minify after strip, minify twice",
    "steps": "<= 100 (compiled programs; thorough 300) or 300 instructions per run of the TEAL (beyond: prefixes compared)",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "lines and tokens are those of the algod assembler as modelled in vlib/avm.py; macros (#define) whose value is a label are not covered",
]
LIMITS = {"deadline": 60}


FUEL = [300]


class Skip(BaseException):
    pass


def outcome(env, lines, line_of, what):
    try:
        p = env.assemble(lines)
    except AsmError as e:
        env.fail("%s TEAL does not assemble: %s" % (what, e))
    w = env.world_class()
    try:
        out = avm.execute(p, w, line_of, fuel=FUEL[0])
    except IllTyped as e:
        out = avm.Outcome("panic", line=w.line, why=str(e))
    return p, w, out


def shape(p):
    """instructions with resolved branch targets, None when symbolic"""
    r = []
    for i in p.ins:
        if i.op in avm.BRANCH or i.op in avm.MULTI:
            r.append((i.op, tuple(p.labels[x] for x in i.imms)))
        else:
            r.append((i.op, tuple(i.imms)))
    return r


def same_program(env, ref, lines, line_of, what):
    p0, w0, o0 = ref
    try:
        p = env.assemble(lines)
    except AsmError as e:
        env.fail("%s TEAL does not assemble: %s" % (what, e))
    if not env.e_magic() and shape(p) == shape(p0):
        # literally the same instructions: only the lines are left to compare
        for a, b in zip(p0.ins, p.ins):
            if line_of is not None and line_of(b.line) != a.line:
                env.fail("%s TEAL line %d (%s) is mapped to line %s, it comes from line %d" % (what, b.line, b.op, line_of(b.line), a.line))
        env.reached()
        return
    p, w, o = outcome(env, lines, line_of or (lambda l: None), what)
    env.compare(o0, w0, o, w, line_of is not None)


def transforms(env, teal, strict=True):
    """every transformation of the TEAL runs like the TEAL"""
    from tealish.utils import minify_teal, strip_comments
    if not hasattr(env, "e_magic"):
        env.e_magic = lambda: bool(getattr(getattr(env, "e", None), "magic", None))
    before = list(teal)
    try:
        env.assemble(teal)
    except AsmError:
        raise Skip()
    ref = outcome(env, teal, lambda l: l, "the")
    env.trace = [("outcome", ref[2].kind, ref[2].value if ref[2].kind == "exit" else None)]
    m, mm = minify_teal(list(teal))
    m = list(m)
    # the minified program is always executed
    p, w, o = outcome(env, m, mm.get, "minified")
    env.compare(ref[2], ref[1], o, w, True)
    lines_ok(env, teal, m, mm, ref[0], p)
    s = list(strip_comments(list(teal)))
    p, w, o = outcome(env, s, lambda l: None, "stripped")
    env.compare(ref[2], ref[1], o, w, False)
    for l in s:
        if not l.strip() or avm.scan(l)[1]:
            env.fail("stripped TEAL still has the line %r" % l)
    sm = list(strip_comments(list(m)))
    same_program(env, ref, sm, mm.get if len(sm) == len(m) else None, "minified and stripped")
    ms, msm = minify_teal(list(s))
    same_program(env, ref, list(ms), None, "stripped and minified")
    m2, mm2 = minify_teal(list(m))
    same_program(env, ref, list(m2), lambda l: mm.get(mm2.get(l)), "twice minified")
    if list(teal) != before:
        env.fail("the transformation changes its argument")
    return m, mm


def lines_ok(env, teal, m, mm, p0, p):
    for j, l in enumerate(m, 1):
        if not l.strip() or not avm.tokens_of_line(l):
            env.fail("minified TEAL still has the line %r" % l)
        o = mm.get(j)
        if not isinstance(o, int) or not 1 <= o <= len(teal):
            env.fail("minified line %d is mapped to %r" % (j, o))
        a, b = avm.tokens_of_line(teal[o - 1]), avm.tokens_of_line(l)
        if [[t[0]] for t in a] != [[t[0]] for t in b]:
            env.fail("minified line %d (%s) is mapped to line %d (%s)" % (j, l, o, teal[o - 1]))
    if len(p.ins) == len(p0.ins):
        for a, b in zip(p0.ins, p.ins):
            if mm.get(b.line) != a.line:
                env.fail("minified line %d (%s) is mapped to line %s, it comes from line %d" % (b.line, b.op, mm.get(b.line), a.line))


def compiled(env, mod, fn, params, fuel=150):
    """programs of another property's generator"""
    FUEL[0] = fuel
    m = importlib.import_module("props." + mod)
    count = [0]

    def run(prog, src=None, teal_post=None, **kw):
        src = prog.source() if src is None else src
        env.notes["source"] = src
        res = env.compile(src)
        if not res.ok:
            raise Skip()
        teal = res.lines if teal_post is None else teal_post(res.lines)
        mt, mm = transforms(env, teal)
        for j in range(1, len(mt) + 1):
            if res.tmap.teal_tealish.get(mm[j]) is None:
                env.fail("minified line %d is not in the source map" % j)
        raise Skip()
    env.run_program = run
    try:
        getattr(m, fn)(env, **params)
    except Skip:
        env.reached()
    finally:
        FUEL[0] = 300
        del env.run_program


NAMES = [("l1", "l1_end", "l1_end_2", "l"), ("main", "main__a", "a", "main__func__a"), ("b", "bz", "bnz", "switch"),
         ("x", "y", "z", "xy"), ("l0_else", "l0_elif_0", "l0_end", "l0"), ("itob", "log", "label:", "a:b"), ("pushint", "0x", "1", "if")]

HEADS = [
    lambda a, b, c: ([a + ":"], 1), lambda a, b, c: ([a + ":", b + ":"], 2), lambda a, b, c: ([a + ":", "// " + c, b + ":"], 2),
    lambda a, b, c: ([a + ": // same as " + b + ":", "", "   ", b + ": //"], 2), lambda a, b, c: ([a + ":", b + ":", c + ":"], 3),
    lambda a, b, c: ([a + ":", "int 7; pop", b + ":"], 2), lambda a, b, c: ([a + ": int 7; pop", b + ":", c + ":"], 3),
    lambda a, b, c: (["  " + a + ":", "\t" + b + ":  "], 2), lambda a, b, c: ([a + ": ; " + b + ":", c + ":"], 3),
    lambda a, b, c: ([a + ":", b + ": int 7; pop", c + ":"], 3), lambda a, b, c: (["int 7; pop; " + a + ":", b + ":", "", c + ":"], 3),
]

FORMS = [
    lambda x, y: ["b " + x], lambda x, y: ["b " + x + " // not " + y], lambda x, y: ["txn Fee", "bnz " + x], lambda x, y: ["txn Fee; bz " + x + "; b " + y],
    lambda x, y: ["txn Fee", "switch " + x + " " + y], lambda x, y: ["txn Fee; switch %s %s %s // %s" % (x, y, x, y)],
    lambda x, y: ['pushint 3; pushint 5; txn Fee', "match %s %s" % (y, x)], lambda x, y: ['pushbytes "%s"' % x, "txn Note", "==", "bnz " + y],
    lambda x, y: ['pushbytes "b %s"; log' % x, "callsub " + x], lambda x, y: ["txn Fee; bz %s;b %s" % (x, y)],
    lambda x, y: ['pushbytes "; b %s // "; log; b %s // "%s' % (x, y, x)], lambda x, y: ["txn Fee", "\tbnz\t " + x + "  "],
    lambda x, y: ["txn Fee", "bz %s//%s" % (x, y)], lambda x, y: ["txn Fee ; bnz %s ;; b %s ;" % (x, y)],
    lambda x, y: ["// b " + x, "txn Fee; !; bz " + y + "; int 1; bnz " + x], lambda x, y: ["txn Fee; bnz " + x, "txn Amount; bnz " + y],
    lambda x, y: ["here%d: txn Fee; bnz %s" % (len(x + y) + ord(x[-1]) * 7 + ord(y[-1]), x)],
    lambda x, y: ["txn Fee", "switch"], lambda x, y: ['byte "%s:"; log' % x, 'byte base64 //8=; log; b ' + y], lambda x, y: ['method "%s()void"; log; txn Fee; bz %s' % (y, x)],
]


def labels(env, names, h1, f1):
    """branches to adjacent labels"""
    a, b, c, d = NAMES[names]
    head1, n1 = HEADS[h1](a, b, c)
    rest = [x for x in (a, b, c, d)][n1:]
    head2, n2 = HEADS[env.choose(3, "h2") if len(rest) > 1 else 0](*(rest + ["q", "r"])[:3])
    defined = [a, b, c][:n1] + (rest + ["q", "r"])[:n2]
    x = defined[env.choose(len(defined), "x")]
    y = defined[env.choose(len(defined), "y")]
    f2 = FORMS[env.choose(4, "f2")]

    def mark(i):
        return ['pushbytes "m"; pushint %d' % i, "app_global_put // mark"]
    teal = (["#pragma version 8", "// start"] + FORMS[f1](x, y) + mark(1) + head1 + mark(2) + f2(y, x) + mark(3) + head2 + mark(4) + ["", "pushint 1", "return // " + a])
    env.notes["source"] = "\n".join(teal)
    try:
        transforms(env, teal)
    except Skip:
        env.reached()


FRAG = ["a", " ", "//", "/", '\\"', "\\\\", ";", ":", "#", "b l1", "\\x00", "//\\\\"]
LINES = [
    lambda s: ['pushbytes "%s"' % s], lambda s: ['byte "%s"//%s' % (s, s)], lambda s: ['pushbytes "%s" // %s' % (s, s)], lambda s: ['  pushbytes  "%s";pushint 1; pop // "' % s],
    lambda s: ["pushint 2;pop; byte \"%s\" //" % s], lambda s: ['#define TEXT "%s" // %s' % (s, s), "pushbytes TEXT // %s" % s], lambda s: ['l3: pushbytes "%s" ;// ;' % s],
    lambda s: ['method "%s"' % s, 'pushbytes "%s"; concat // a "' % s],
]


def literals(env, form, n):
    """string literals"""
    s = "".join(FRAG[env.choose(len(FRAG), "c%d" % i)] for i in range(n))
    teal = ["#pragma version 8"] + LINES[form](s) + ["log", "b l1", "l0:", "l1:", "txn Fee", "return"]
    env.notes["source"] = "\n".join(teal)
    try:
        transforms(env, teal)
    except Skip:
        env.reached()


DATA = ["byte base64 AA//BB==", "byte b64 //8=", "byte base64(//8=)//c", "byte b64(//8=) // c", "byte base64 //8= // c", "byte base64 //8=;pushint 1;pop // //",
        "byte b32(ME)", "byte base32 ME // base32", "byte 0xAAff // 0x//", "byte 0x", "int 1 // base64 //8=\npop; byte base64 //8=", "byte base64 ////;log;byte b64(////) // b64(",
        'byte "base64 //8="', 'byte "base64" // x', 'byte "b64("//)', 'byte "b64" ; pop; byte "" //8=', 'byte "(base64 "//8=', "addr AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ // zero",
        "int 0x10//\nitob", "txn Note//", "txna ApplicationArgs 0 ;pop; txn Note", "#define SEP // base64\nbyte base64 //8=", "#define A base64 //8=\nbyte A // A", "#define B ;pop;\nint 1 B byte \"x\"",
        "int NoOp // NoOp\nitob", "byte \"\\\\\"//\\", 'byte "\\\\";pop;byte "//"']


def data(env, part):
    d = DATA[part::4]
    teal = ["#pragma version 8", ""] + d[env.choose(len(d), "d")].split("\n") + ["log", "l0:", "//", "l1:", "txn Fee // fee", "return"]
    env.notes["source"] = "\n".join(teal)
    try:
        transforms(env, teal)
    except Skip:
        env.reached()


STRIDE = {"c01": 8, "c02": 8, "c03": 9, "c04": 14, "c05": 16, "c06": 10, "c07": 0, "c08": 30, "c09": 16, "c10": 20, "c11": 16, "c12": 30}


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for mod, k in STRIDE.items():
        if not k:
            continue
        m = importlib.import_module("props." + mod)
        js = m.jobs(tier)
        for (name, fn, params, *rest) in (js if deep else js[::k]):
            out.append(("compiled/%s/%s" % (mod, name), "compiled", dict(mod=mod, fn=fn, params=params, fuel=300 if deep else 100), *rest))
    for nm in range(len(NAMES)):
        for h in range(len(HEADS)):
            for f in range(len(FORMS)):
                if not deep and (nm + h * 3 + f) % 7:
                    continue
                out.append(("labels/%d/%d/%d" % (nm, h, f), "labels", dict(names=nm, h1=h, f1=f)))
    for form in range(len(LINES)):
        for n in range(0, 5 if deep else 3):
            out.append(("literals/%d/%d" % (form, n), "literals", dict(form=form, n=n)))
    for p in range(4):
        out.append(("data/%d" % p, "data", dict(part=p)))
    return out
