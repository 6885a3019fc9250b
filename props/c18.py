"""C18 a compilation does not depend on earlier ones"""
import contextlib
import importlib
import io
import sys

from .common import *
from vlib import core, scen
from vlib.scen import Hang, guard

ID = "C18"
BOUNDS = {
    "history": "compiling one of 33 programs (12 invalid), then compiling one of them; parsing, compiling, formatting or inspecting one of 11, then compiling, "
               "formatting or inspecting one of them (thorough: every action on every program before every action, twice, and two earlier actions); all programs "
               "with symbolic struct field sizes (1..200), constants and literals (0..255 and 2^56..2^64-1)",
    "interleaving": "all orders of the parse, process and compile steps of two compilers, for 15 (thorough 66) pairs of programs",
}
ASSUMPTIONS = [
    "the result in a process that has compiled nothing yet is obtained by executing the modules of the package anew (the parser library is shared)",
    "one compilation at a time (no threads)",
]
LEVEL = "other"
EXPLANATION = ("Bounded symbolic execution of the real compiler over histories: the history and the probed action are choices, sizes and constants are z3 integers; "
               "every output (TEAL, map, messages, formatted text, inspection) is compared with the output in a fresh copy of the package, numbers by the solver.")
TECHNIQUE = "symbolic execution of histories of compilations with symbolic sizes and constants, z3 equality with the output of a fresh copy of the package"
NOTE = "Within the bounds of the evidence file no earlier action changes the output, map or error of a later one"
LIMITS = {"deadline": 200}

H = ["#pragma version 8"]

# @n, @m: symbolic sizes 1..200, @v: symbolic value
PROGRAMS = {
    "struct": H + ["struct Item:", "id: int", "data: bytes[@n]", "end", "Item v = bzero(@m)", "v.id = @v", "log(v.data)", "exit(v.id)"],
    "struct other": H + ["struct Item:", "data: bytes[@m]", "id: int", "end", "Item v = bzero(@m)", "v.id = @v", "log(v.data)", "exit(v.id)"],
    "struct renamed": H + ["struct Item:", "data: bytes[@n]", "other: bytes[@m]", "end", "Item v = bzero(@m)", "log(v.data)", "exit(1)"],
    "structs": H + ["struct Item:", "id: int", "end", "struct Pair:", "a: Item", "b: bytes[@n]", "end", "Pair v = bzero(@n)", "log(v.b)", "log(v.a)", "exit(SizeOf(Pair))"],
    "bad no struct": H + ["Item v = bzero(@m)", "v.id = @v", "log(v.data)", "exit(v.id)"],
    "bad no field": H + ["struct Item:", "id: int", "end", "Item v = bzero(@m)", "v.id = @v", "log(v.data)", "exit(v.id)"],
    "bad struct of unknown": H + ["struct Item:", "id: int", "data: Pair", "end", "exit(SizeOf(Item))"],
    "bad struct unfinished": H + ["struct Item:", "id: int", "data: bytes[@n]"],
    "bad struct field": H + ["struct Item:", "id: int", "data: bytes[@n]", "x y", "end", "exit(1)"],
    "size": H + ["exit(SizeOf(bytes[@n]))"],
    "bad size": H + ["exit(SizeOf(Item))"],
    "box": H + ["struct Item:", "data: bytes[@n]", "id: int", "end", "box<Item> v = Box(\"k\")", "v.id = @v", "log(v.data)", "exit(v.id)"],
    "bad box": H + ["box<Item> v = Box(\"k\")", "exit(v.id)"],
    "cast": H + ["struct Item:", "id: int", "data: bytes[@n]", "end", "bytes s", "Item v", "v = Cast(s, Item)", "s = Cast(s, bytes[@m])", "exit(v.id)"],
    "constant": H + ["const int NUM = @v", "const bytes NAM = \"ab\"", "log(NAM)", "exit(NUM + 1)"],
    "constant other": H + ["const int NAM = @v", "const bytes NUM = \"abc\"", "log(NUM)", "exit(NAM)"],
    "bad constant": H + ["log(NAM)", "exit(NUM + 1)"],
    "variables": H + ["int x = @v", "bytes s = \"b\"", "bytes[2] t = \"bc\"", "x = x + 1", "log(s)", "exit(x)"],
    "variables other": H + ["bytes s", "int y", "int z", "int x", "s = \"c\"", "x = x + 1", "log(s)", "exit(x)"],
    "bad variables": H + ["x = x + 1", "log(s)", "exit(x)"],
    "bad kinds": H + ["bytes x = \"\"", "int s", "x = x + 1", "exit(x)"],
    "functions": H + ["int x = ff(@v)", "log(gg(\"s\"))", "exit(x)", "func ff(a: int) int:", "int y = a + 1", "return y", "end",
                      "func gg(s: bytes) bytes:", "return Concat(s, \"b\")", "end"],
    "functions other": H + ["int x = 2", "bytes s", "x, s = ff(\"a\")", "exit(x)", "func ff(s: bytes) int, bytes:", "return @v, s", "end"],
    "bad functions": H + ["int x = ff(@v)", "log(gg(\"s\"))", "exit(x)"],
    "blocks": H + ["int x = @v", "if x == 1:", "x = 2", "elif x:", "x = 3", "else:", "x = 4", "end", "while x < 3:", "x = x + 1", "end", "for i in 0:@m:", "log(\"i\")", "end",
                   "jump aa", "block aa:", "exit(x)", "end"],
    "bad blocks": H + ["jump aa"],
    "bad break": H + ["int x = 1", "while x:", "if x:", "x = y", "break", "end", "end", "exit(1)"],
    "router": H + ["router:", "ff", "gg", "end", "@public()", "func ff(x: int):", "assert(x, \"no\")", "return", "end", "@public(OnCompletion=OptIn)", "func gg():",
                   "return", "end"],
    "inner": H + ["inner_group:", "inner_txn:", "TypeEnum: Pay", "Fee: @v", "end", "inner_txn:", "Note: \"a\"", "end", "end", "assert(@v == Txn.Fee, \"m\")",
                  "exit(1)"],
    "bad inner": H + ["inner_txn:", "TypeEnum: Pay", "Fee: @v", "Nope: 3", "end", "exit(1)"],
    "fields": H + ["bytes s = Txn.Sender", "log(Gtxn[1].ApplicationArgs[0])", "int x, int y = asset_params_get(AssetTotal, @v)", "exit(Global.Round)"],
    "operations": H + ["int x", "int y", "x, y = asset_params_get(AssetTotal, @v)", "bytes s = extract(1, @m, \"abc\")", "s = replace2(@n, s, \"b\")", "exit(x)"],
    "bad operations": H + ["bytes s = sha256(1)", "exit(1)"],
}
STRUCTY = ["struct", "struct other", "bad no struct", "bad struct field", "structs", "box", "cast", "constant", "variables", "functions", "inner"]
ACTIONS = ["compile", "format", "inspect", "parse"]
PROBES = ["compile", "format", "inspect"]


def source(env, name, who):
    text = "\n".join(PROGRAMS[name])
    # every range is within one size in bytes, so that a compiler that sizes literals by cases does not fork
    values = (2 ** 56, 2 ** 64 - 1) if who == "p" else (0, 255)
    for k, (mark, lo, hi) in enumerate((("@n", 1, 200), ("@m", 1, 200), ("@v",) + values)):
        if mark in text:
            text = text.replace(mark, str(env.sym_int(who + mark[1], lo, hi)))
    return text


def keep_grammar():
    """the grammar file is read anew by every copy of the package; its parse tree (a value of the parser library) can be shared"""
    import textx.lang
    for p in textx.lang.textX_parsers.values():
        if "parse" not in vars(p):
            trees, parse = {}, p.parse

            def again(text, *a, **k):
                if text not in trees:
                    trees[text] = parse(text, *a, **k)
                return trees[text]
            p.parse = again


class package:
    """a fresh copy of the package, as in a new process"""

    def __init__(self, env):
        self.env = env

    def __enter__(self):
        self.old = {k: m for k, m in sys.modules.items() if k == "tealish" or k.startswith("tealish.")}
        for k in self.old:
            del sys.modules[k]
        m = importlib.import_module("tealish")
        if not self.env.concrete:
            keep_grammar()
            from vlib import symenv
            for k, x in list(sys.modules.items()):
                if (k == "tealish" or k.startswith("tealish.")) and "int" not in vars(x):
                    x.int = symenv.symint
        return m

    def __exit__(self, *a):
        for k in [k for k in sys.modules if k == "tealish" or k.startswith("tealish.")]:
            del sys.modules[k]
        sys.modules.update(self.old)


def quiet(f):
    """(kind, result) of one action"""
    try:
        with guard(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return "ok", f()
    except (core.Panic, core.AsmError, core.IllTyped):
        raise
    except Hang:
        return "Hang", ""
    except Exception as e:
        return type(e).__name__, str(e)


def compiled(c):
    c.compile()
    m = c.get_map()
    return [list(c.output), sorted(m.teal_tealish.items()), sorted(m.errors.items())]


def act(t, action, src):
    if action == "compile":
        return quiet(lambda: compiled(t.TealishCompiler(src.split("\n"))))
    if action == "format":
        return quiet(lambda: t.reformat_program(src))
    if action == "inspect":
        return quiet(lambda: t.inspect_program(src))
    return quiet(lambda: t.TealishCompiler(src.split("\n")).parse())


def flat(r):
    """text with every part of the result in a fixed order"""
    if isinstance(r, dict):
        return "{%s}" % ",".join("%s:%s" % (k, flat(v)) for k, v in r.items())
    if isinstance(r, (list, tuple)):
        return "[%s]" % "\n".join(flat(x) for x in r)
    return str(r)


def agree(env, got, want, what):
    from .c16 import same_numbers
    x, y = flat(got), flat(want)
    if x != y and not same_numbers(env, x, y):
        i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), 0)
        env.fail("%s: %r, in a fresh process %r" % (what, x[max(0, i - 80):i + 150], y[max(0, i - 80):i + 150]))


def history(env, length, earlier, deep):
    """earlier actions, then a probe"""
    names = list(PROGRAMS)
    before = []
    for k in range(length):
        name = earlier if k == 0 else STRUCTY[env.choose(len(STRUCTY), "earlier%d" % k)]
        acts = ACTIONS if deep or name in STRUCTY else ACTIONS[:1]
        action = acts[env.choose(len(acts), "action%d" % k)]
        before.append((action, source(env, name, "abc"[k]), name))
    if deep:
        pool, probes = names, PROBES
    elif before[0][0] != "compile":
        pool, probes = STRUCTY, PROBES[:1]
    else:
        pool, probes = names, PROBES
    name = pool[env.choose(len(pool), "probe")]
    if not deep and (name not in STRUCTY or earlier not in STRUCTY):
        probes = PROBES[:1]
    action = probes[env.choose(len(probes), "probe action")]
    src = source(env, name, "p")
    story = ", ".join("%s %s" % (a, n) for a, _, n in before)
    env.notes["source"] = "%s, then %s:\n%s" % ("\n\n".join("%s:\n%s" % (a, s) for a, s, _ in before), action, src)
    with package(env) as t:
        want = act(t, action, src)
    with package(env) as t:
        for a, s, _ in before:
            act(t, a, s)
        got = act(t, action, src)
        again = act(t, action, src) if deep or name == earlier else got
    env.trace = [("outcome", want[0], None)]
    agree(env, got, want, "%s %s after %s" % (action, name, story))
    agree(env, again, want, "%s %s again after %s" % (action, name, story))
    env.reached()


STEPS = ["parse", "process", "compile"]


def interleaved(env, one, others):
    two = others[env.choose(len(others), "two")]
    srcs = [source(env, one, "a"), source(env, two, "b")]
    env.notes["source"] = "\n\n".join(srcs)
    want = []
    for s in srcs:
        with package(env) as t:
            want.append(act(t, "compile", s))
    got = [None, None]
    order = []
    with package(env) as t:
        cs = [t.TealishCompiler(s.split("\n")) for s in srcs]
        at = [0, 0]
        while at != [3, 3]:
            # a compiler whose step failed is not used again
            left = [i for i in (0, 1) if at[i] < 3]
            i = left[env.choose(len(left), "turn%d" % len(order))] if len(left) > 1 else left[0]
            step = STEPS[at[i]]
            order.append("%s %d" % (step, i + 1))
            r = quiet((lambda: compiled(cs[i])) if step == "compile" else getattr(cs[i], step))
            at[i] += 1
            if r[0] != "ok" or step == "compile":
                got[i] = r
                at[i] = 3
    env.trace = [("outcome", "done", None)]
    for i in (0, 1):
        agree(env, got[i], want[i], "compiler %d of %s / %s, %s" % (i + 1, one, two, ", ".join(order)))
    env.reached()


FEW = ["struct", "struct other", "bad no struct", "box", "functions"]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for n in PROGRAMS:
        out.append(("history/" + n, "history", dict(length=1, earlier=n, deep=deep)))
    some = STRUCTY if deep else FEW
    for k, n in enumerate(some):
        out.append(("interleaved/" + n, "interleaved", dict(one=n, others=some[k:])))
    if deep:
        for n in PROGRAMS:
            out.append(("history/two/" + n, "history", dict(length=2, earlier=n, deep=False)))
        out = [(n, f, p, {"deadline": 3000}) for n, f, p in out]
    return out
