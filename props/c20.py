"""C20 opcode calls follow the language spec in use"""
import contextlib
import copy
import io
import json
import os
import re
import shutil
import sys
import tempfile
from unittest import mock

from .common import *
from .c18 import package, quiet
from vlib import core

ID = "C20"
BOUNDS = {
    "packaged": "every opcode of the packaged spec that has a name which can be called: every count of arguments from one less to two more; every kind of value "
                "(int, uint8, bytes, bytes[4], any, no value, two values) at every place with one place at a time deviating, and all combinations of int, bytes and "
                "any for up to three arguments; immediates: any integer or constant 0..70000 (symbolic), names of all fields of the opcode, unknown names, strings, variables; "
                "results received by every combination of int and bytes targets, by one target too many or too few, ignored, or used as an argument",
    "local": "specs in the working directory with a new opcode (or a redefined one) of 0..3 arguments, 0..2 results of every kind and no, one or two immediates of every "
             "documented form, and its calls as above; new fields of every kind in global, txn and the array instructions, and their uses",
    "comparison": "specs that differ by every subset of four opcodes, through new_ops, compare_langspecs, get_new_local_ops and the diff and fetch commands",
}
ASSUMPTIONS = [
    "specs have the structure of the packaged file (argument kinds as letters)",
    "fetch is given the document of the address (no network)",
    "opcodes whose immediate names are missing in the packaged spec take numbers only",
]
TECHNIQUE = "symbolic execution of the compiler over opcode signatures and calls, symbolic immediates; z3 decides acceptance and the emitted immediates"
NOTE = "Calls are accepted exactly when they match the signature in the spec, for all opcodes and bounded signatures"
LIMITS = {"deadline": 200}
LEVEL = "other"
EXPLANATION = ("Bounded symbolic execution of the real compiler: opcode signatures, calls and receivers are choices, immediates and constants are z3 integers; acceptance is "
               "compared with an independent reading of the signature on every path, the emitted immediates by the solver.")

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = {o["Name"]: o for o in json.load(open(os.path.join(HERE, "..", "oracle", "langspec.json")))["Ops"]}
STATEMENTS = {"return", "assert", "push", "pop", "bzero", "err", "b", "method"}
METHOD = {"Name": "method", "Size": 2, "Returns": "B", "ImmediateNote": "{string method signature}"}

KINDS = {"int": "vi", "uint8": "vu", "bytes": "vb", "bytes[4]": "vs", "any": "loads(1)", "none": 'log("x")', "two": "mulw(1, 2)"}
PLAIN = ["int", "bytes", "any"]


def fits_arg(letter, kind):
    """does the opcode take this kind of value? ("." any value, "U" integers, "B" byte strings; unknown kinds are not refused)"""
    if kind in ("none", "two"):
        return False
    return letter == "." or kind == "any" or (kind in ("int", "uint8")) == (letter == "U")


def immediate_kinds(o):
    notes = re.findall(r"\{(\w+) ([^}]*)\}", str(o.get("ImmediateNote", "")))
    return ["field" if n.endswith("field index") and o.get("ArgEnum") else t for t, n in notes]


def callable_op(o):
    return o["Size"] > 0 and "branch offset" not in str(o.get("ImmediateNote", ""))


class Call:
    """a call with its expected outcome"""

    def __init__(self, env, o, deep, plain):
        self.env = env
        self.o = o
        self.ok = callable_op(o)
        self.imms, self.shown, self.const = [], [], None
        self.deep, self.many = deep, False
        kinds = immediate_kinds(o) if self.ok else []
        sig = o.get("Args", "")
        style = 0 if plain else env.choose(4 if kinds else 3, "style")
        # style: 0 well-formed, 1 kinds, 2 counts, 3 immediates
        odd = env.choose(len(kinds), "odd immediate") if style == 3 else None
        self.style = style
        for j, k in enumerate(kinds):
            self.immediate(j, k, j == odd)
        args = []
        if style == 1 and len(sig) <= (3 if deep else 2):
            args = [PLAIN[env.choose(3, "kind%d" % j)] for j in range(len(sig))]
        else:
            args = [{"U": "int", "B": "bytes", ".": "int"}[x] for x in sig]
        if style == 1 and sig and (len(sig) > 2 or env.choose(2, "special")):
            j = env.choose(len(sig), "odd argument")
            args[j] = list(KINDS)[env.choose(len(KINDS), "odd kind")]
        self.ok = self.ok and all(fits_arg(x, k) for x, k in zip(sig, args))
        if style == 2:
            d = env.choose(3, "count")
            if d == 0:
                if args:
                    args.pop(env.choose(len(args), "missing"))
                elif self.imms:
                    self.imms.pop()
                else:
                    d = 1
            if d:
                args += ["int", "bytes"][:d]
            self.ok = False
        self.args = args
        self.text = "%s(%s)" % (o["Name"], ", ".join(self.imms + [KINDS[k] for k in args]))

    def immediate(self, j, kind, odd):
        env = self.env
        if not odd:
            if kind == "field":
                names = self.o["ArgEnum"]
                if self.style == 0 or self.deep:
                    k = env.choose(len(names), "field%d" % j)
                    self.many = self.many or k > 0 and not self.deep
                else:
                    k = 0
                name = names[k]
                self.add(name, name)
            elif kind == "string":
                self.add('"m(uint64)void"', '"m(uint64)void"')
            elif kind in ("uint8", "int8"):
                v = env.sym_int("imm%d" % j, 0, 255 if kind == "uint8" else 127)
                self.add(str(v), v)
            else:
                raise core.IllTyped("immediate kind %r" % kind)
            return
        form = env.choose(7, "form")
        if form in (0, 1):
            v = env.sym_int("imm%d" % j, 0, 70000)
            if form == 1 and self.const is None:
                self.const = ("int", str(v))
                self.add("NUM", v)
            else:
                self.add(str(v), v)
            hi = {"uint8": 255, "int8": 127}.get(kind)
            self.ok = self.ok and hi is not None and bool(v <= hi)
        elif form == 2:
            self.add('"s"', '"s"')
            self.ok = self.ok and kind == "string"
        elif form == 3:
            self.add("Nope", "Nope")
            self.ok = False
        elif form == 4:
            # a field of another opcode
            other = "Balance" if kind != "field" else next(n for n in ("AssetBalance", "Fee", "AppCreator") if n not in self.o["ArgEnum"])
            self.add(other, other)
            self.ok = False
        elif form == 5:
            self.add("vi", "vi")
            self.ok = False
        else:
            if self.const is None:
                self.const = ("bytes", '"k"')
            self.add("NUM" if self.const[0] == "bytes" else "1 + 1", "")
            self.ok = False

    def add(self, text, shown):
        self.imms.append(text)
        self.shown.append(shown)


def receiver(env, call, deep):
    """statements around the call: (lines, acceptable)"""
    ret = call.o.get("Returns", "")[::-1]
    if isinstance(ret, list):
        ret = "".join(ret)
    n = len(ret)
    use = 0 if call.many else env.choose(5 if deep or call.style == 0 else 2, "use")
    # 0, 1: as many targets as results; 2: one target more; 3: statement; 4: argument
    if use == 3:
        return [call.text], n == 0
    if use == 4:
        kind = ["int", "bytes", "any"][env.choose(3, "place")]
        text = {"int": "itob(%s)", "bytes": "len(%s)", "any": "dup(%s)"}[kind] % call.text
        ok = n == 1 and (kind == "any" or ret in (".", {"int": "U", "bytes": "B"}[kind]))
        pre = {"int": "bytes t = ", "bytes": "int t = ", "any": "int t, int u = "}[kind]
        if kind == "any":
            return ["int t", "int u", "t, u = " + text], ok
        return [pre + text], ok
    k = n + (use == 2) - (use == 1 and n > 1)
    if k == 0:
        k = 1
    types = []
    if call.style and not deep:
        # the targets fit: only the call deviates
        types = [{"B": "bytes"}.get(r, "int") for r in (ret or "U")] + ["int"] * (k - len(ret or "U"))
        types = types[:k]
    for i in range(len(types), k):
        if i < 2 or deep:
            types.append(["int", "bytes"][env.choose(2, "target%d" % i)])
        else:
            types.append({"B": "bytes"}.get(ret[i] if i < n else "", "int"))
    ok = k == n and all(r == "." or {"U": "int", "B": "bytes"}[r] == t for r, t in zip(ret, types))
    if k == 1 and use == 1:
        return ["%s r0 = %s" % (types[0], call.text)], ok
    return ["%s r%d" % (t, i) for i, t in enumerate(types)] + ["%s = %s" % (", ".join("r%d" % i for i in range(k)), call.text)], ok


def program(env, call, deep):
    lines, ok = receiver(env, call, deep)
    pre = ["#pragma version 8"]
    if call.const:
        pre.append("const %s NUM = %s" % call.const)
    pre += ["int vi = 1", "uint8 vu = 3", "bytes vb = \"b\"", "bytes[4] vs = \"abcd\""]
    return "\n".join(pre + lines + ["exit(1)"]), ok and call.ok


def verdict(env, call, ok, kind, err, lines):
    env.trace = [("outcome", "accepted" if kind == "ok" else "rejected", None)]
    if kind not in ("ok", "CompileError", "ParseError"):
        env.fail("%s: %s: %s" % (call.text, kind, err))
    if kind == "ok" and not ok:
        env.fail("a call that does not match the signature of %s is accepted: %s" % (call.o["Name"], call.text))
    if kind != "ok":
        if ok:
            env.fail("a call that matches the signature of %s is rejected: %s: %s" % (call.o["Name"], call.text, err))
        return env.reached()
    # the instruction and its immediates, once
    found = [l.split("//")[0].split() for l in lines]
    found = [f for f in found if f[:1] == [call.o["Name"]]]
    found = [f for f in found if f != ["mulw"] and f != ["log"] or call.o["Name"] in ("mulw", "log")]
    want = len([1 for k in call.args if KINDS[k].split("(")[0] == call.o["Name"]])
    if call.o["Name"] in ("load", "store"):
        found = found[-1:]
    if len(found) != 1 + want and not (call.o["Name"] in ("itob", "len", "dup") and len(found) == 2):
        env.fail("%s: %d instructions %s" % (call.text, len(found), call.o["Name"]))
    f = found[0] if len(found) == 1 else found[-1 - (len(found) == 2 and call.o["Name"] in ("itob", "len", "dup"))]
    if len(f) - 1 != len(call.shown):
        env.fail("%s: instruction %s" % (call.text, " ".join(f)))
    for x, y in zip(f[1:], call.shown):
        if isinstance(y, str):
            if x != y:
                env.fail("%s: immediate %s, not %s" % (call.text, x, y))
        elif x == "NUM" and call.const:
            pass
        else:
            v = core.BACK.magic_lookup(x)
            env.check((int(x) if v is None else v) == y, "immediate of " + call.text)
    env.reached()


def packaged(env, names, deep):
    name = names[env.choose(len(names), "op")]
    o = METHOD if name == "method" else SPEC[name]
    call = Call(env, o, deep, False)
    src, ok = program(env, call, deep)
    env.notes["source"] = src
    r = env.compile(src)
    verdict(env, call, ok, "ok" if r.ok else r.kind, r.err, r.lines or [])


# ---- specs in the working directory

BASE = None
SPECS = {}


def base():
    global BASE
    if BASE is None:
        BASE = json.load(open(os.path.join(HERE, "..", "oracle", "langspec.json")))
        SPECS.update((o["Name"], o) for o in BASE["Ops"])
    return BASE


def spec_with(ops, drop=(), change=None):
    s = dict(base())
    s["Ops"] = [o for o in base()["Ops"] if o["Name"] not in drop and o["Name"] not in [x["Name"] for x in ops]]
    if change:
        s["Ops"] = [change(o) for o in s["Ops"]]
    s["Ops"] = s["Ops"] + ops
    return s


LOADED = {}


class local:
    """a copy of the package in a process whose working directory has the spec (the copy is used again for the same spec: C18 is about histories)"""

    def __init__(self, env, spec):
        self.env, self.spec = env, spec

    def __enter__(self):
        self.cwd = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="c20_")
        os.chdir(self.dir)
        key = json.dumps(self.spec and [[o for o in self.spec["Ops"] if base_op(o) is not o],
                                        sorted(set(SPECS) - {o["Name"] for o in self.spec["Ops"]})])
        self.package = package(self.env)
        if key in LOADED:
            self.package.old = {k: m for k, m in sys.modules.items() if ours(k)}
            for k in self.package.old:
                del sys.modules[k]
            sys.modules.update(LOADED[key])
            return sys.modules["tealish"]
        try:
            if self.spec is not None:
                with open("langspec.json", "w") as f:
                    json.dump(self.spec, f)
            t = self.package.__enter__()
        except BaseException:
            self.__exit__()
            raise
        if len(LOADED) > 3:
            LOADED.clear()
        self.key = key
        return t

    def __exit__(self, *a):
        if hasattr(self, "key"):
            LOADED[self.key] = {k: m for k, m in sys.modules.items() if ours(k)}
        self.package.__exit__(*a)
        os.chdir(self.cwd)
        shutil.rmtree(self.dir)


def ours(k):
    return k == "tealish" or k.startswith("tealish.")


def base_op(o):
    return SPECS.get(o["Name"])


def outcome(t, src):
    return quiet(lambda: list(t.TealishCompiler(src.split("\n")).compile()))


IMMS = [
    ("", 0, []),
    ("{uint8 some number}", 1, None),
    ("{int8 some number}", 1, None),
    ("{uint8 new field index}", 1, ["NewOne", "NewTwo"]),
    ("{uint8 a place} {uint8 new field index}", 2, ["NewOne", "NewTwo"]),
    ("{uint8 new field index} {uint8 a place}", 2, ["NewOne", "NewTwo"]),
    ("{string some text}", 1, None),
]


def signature(env, name, nargs, nret, imms):
    note, k, enum = IMMS[imms]
    o = {"Name": name, "Opcode": 250, "Size": 1 + k, "Doc": "new"}
    args = "".join("UB."[env.choose(3, "arg%d" % j)] for j in range(nargs))
    rets = "".join("UB."[env.choose(3, "ret%d" % j)] for j in range(nret))
    if args:
        o["Args"] = args
    if rets:
        o["Returns"] = rets
    if note:
        o["ImmediateNote"] = note
    if enum:
        o["ArgEnum"] = enum
        o["ArgEnumTypes"] = "UB"
    return o


def new_op(env, name, nargs, nret, deep, imms=0):
    o = signature(env, name, nargs, nret, imms)
    call = Call(env, o, deep, not deep and nargs == 2 and nret > 0)
    src, ok = program(env, call, deep)
    env.notes["source"] = "langspec.json: %s\n%s" % (json.dumps(o), src)
    with local(env, spec_with([o])) as t:
        kind, r = outcome(t, src)
    verdict(env, call, ok, kind, r, r if kind == "ok" else [])


def dropped(env):
    """an opcode that the spec in use does not have can not be called"""
    name = ["sha256", "mulw", "log", "asset_params_get"][env.choose(4, "op")]
    call = Call(env, SPEC[name], False, True)
    src, ok = program(env, call, False)
    env.notes["source"] = src
    with local(env, spec_with([], drop=[name])) as t:
        kind, r = outcome(t, src)
    env.trace = [("outcome", kind, None)]
    if kind not in ("CompileError", "ParseError"):
        env.fail("%s, an opcode that the spec does not have: %s" % (name, kind))
    env.reached()


FIELDS = {
    # form: (text, instructions that have the field, array)
    "Txn": ("Txn.%s", "txn", None),
    "Gtxn": ("Gtxn[@i].%s", "txn", None),
    "Gtxn var": ("Gtxn[vi].%s", "txn", None),
    "Itxn": ("Itxn.%s", "txn", None),
    "Global": ("Global.%s", "global", None),
    "Txn array": ("Txn.%s[@i]", "txn", "txna"),
    "Gtxn array": ("Gtxn[@i].%s[@i]", "txn", "txna"),
    "Itxn array": ("Itxn.%s[@i]", "txn", "txna"),
}


def fields(env, form):
    """a new field of the spec has the type the spec gives it"""
    text, op, arr = FIELDS[form]
    letter = "UB."[env.choose(3, "type")]
    known = env.choose(3, "known")       # 0: the spec has the field, 1: it does not, 2: it is redefined
    name = "NewField"
    if known == 2:
        name = {"txn": "Fee" if letter != "U" else "Note", "global": "Round" if letter != "U" else "GroupID"}[op] if not arr else "ApplicationArgs"

    def change(o):
        o = dict(o)
        if known == 1 or "ArgEnum" not in o:
            return o
        group = o["Name"] in ("txn", "gtxn", "gtxns", "itxn", "gitxn", "itxn_field") or arr and o["Name"] in ("txna", "gtxna", "gtxnsa", "txnas", "gtxnas", "gtxnsas", "itxna")
        if o["Name"] == op if op == "global" else group:
            names, types = list(o["ArgEnum"]), o.get("ArgEnumTypes", "U" * len(o["ArgEnum"]))
            if name in names:
                i = names.index(name)
                o["ArgEnumTypes"] = types[:i] + letter + types[i + 1:]
            else:
                o["ArgEnum"], o["ArgEnumTypes"] = names + [name], types + letter
        return o

    i = env.sym_int("i", 0, 15)
    e = (text % name).replace("@i", str(i))
    use = env.choose(4, "use")
    stmt, wants = [("int r = %s", "U"), ("bytes r = %s", "B"), ("int r = itob(%s)", None), ("log(%s)", "B")][use]
    if use == 2:
        stmt, wants = "bytes r = itob(%s)", "U"
    src = "\n".join(["#pragma version 8", "int vi = 1", stmt % e, "exit(1)"])
    env.notes["source"] = "%s: %s\n%s" % (name, letter, src)
    ok = known != 1 and letter in (".", wants)
    with local(env, spec_with([], change=change)) as t:
        kind, r = outcome(t, src)
    env.trace = [("outcome", "accepted" if kind == "ok" else "rejected", None)]
    if kind not in ("ok", "CompileError", "ParseError"):
        env.fail("%s: %s: %s" % (e, kind, r))
    if (kind == "ok") != ok:
        env.fail("%s of type %s is %s: %s" % (name, letter, "accepted" if kind == "ok" else "rejected", src))
    env.reached()


# ---- comparison of specs

EXTRA = [
    {"Name": "newone", "Opcode": 250, "Size": 1, "Args": "UB", "Returns": "B"},
    {"Name": "sha256", "Opcode": 1, "Size": 1, "Args": "B", "Returns": "B"},
    {"Name": "newtwo", "Opcode": 251, "Size": 2, "ImmediateNote": "{uint8 thing}", "Args": ".", "Returns": "U"},
    {"Name": "box_zap", "Opcode": 252, "Size": 1},
]


def compared(env, way):
    here = [env.choose(2, "a%d" % k) for k in range(4)]
    there = [env.choose(2, "b%d" % k) for k in range(4)] if way in ("pair", "new", "diff") else [0, 1, 0, 0]
    names = [o["Name"] for o in EXTRA]
    a = spec_with([o for o, h in zip(EXTRA, here) if h], drop=names)
    b = spec_with([o for o, h in zip(EXTRA, there) if h], drop=names)
    only_a = [n for n, x, y in zip(names, here, there) if x and not y]
    only_b = [n for n, x, y in zip(names, here, there) if y and not x]
    env.notes["source"] = "first spec with %s, second with %s" % ([n for n, x in zip(names, here) if x], [n for n, x in zip(names, there) if x])
    env.trace = [("outcome", way, None)]
    if way in ("pair", "new"):
        with local(env, None) as t:
            ls = __import__("tealish.langspec", fromlist=["x"])
            x, y = ls.LangSpec(copy.deepcopy(a)), ls.LangSpec(copy.deepcopy(b))
            got = quiet(lambda: [list(s) for s in ls.compare_langspecs(x, y)] if way == "pair" else [list(y.new_ops(x)), list(x.new_ops(y))])
            want = [only_a, only_b] if way == "pair" else [only_b, only_a]
            if got[0] != "ok" or [sorted(s) for s in got[1]] != [sorted(s) for s in want]:
                env.fail("%s: %s, expected %s" % (way, got, want))
        return env.reached()
    # against the packaged spec
    if way == "local":
        with local(env, a) as t:
            ls = __import__("tealish.langspec", fromlist=["x"])
            got = quiet(lambda: list(ls.get_new_local_ops()))
        if got[0] != "ok" or sorted(got[1]) != sorted(only_a):
            env.fail("get_new_local_ops: %s, expected %s" % (got, only_a))
        return env.reached()
    if way == "packaged":
        with local(env, None) as t:
            ls = __import__("tealish.langspec", fromlist=["x"])
            x, y = ls.LangSpec(copy.deepcopy(a)), ls.packaged_lang_spec
            got = quiet(lambda: [list(s) for s in list(ls.compare_langspecs(x, y)) + list(ls.compare_langspecs(y, x))] + [list(x.new_ops(y)), list(y.new_ops(x))])
        want = [only_a, only_b, only_b, only_a, only_a, only_b]
        if got[0] != "ok" or [sorted(s) for s in got[1]] != [sorted(s) for s in want]:
            env.fail("comparison with the packaged spec: %s, expected %s" % (got, want))
        return env.reached()
    blob = "https://github.com/algorand/go-algorand/%s/rel/beta/data/langspec.json"
    args = {"fetch blob": ["langspec", "fetch", blob % "blob"], "diff": ["langspec", "diff", "http://host/x.json"], "diff local": ["langspec", "diff"], "fetch": ["langspec", "fetch", "http://host/x.json"],
            "update": ["langspec", "update"], "fetch branch": ["langspec", "fetch", "rel/beta"]}[way]
    asked = []

    class Answer:
        def raise_for_status(self):
            pass

        def json(self):
            return copy.deepcopy(b if way == "diff" else a)

    def get(url):
        asked.append(url)
        return Answer()
    sig = {}
    with local(env, a if way in ("diff", "diff local") else None) as t:
        cli = __import__("tealish.cli", fromlist=["x"])
        ls = __import__("tealish.langspec", fromlist=["x"])
        out = io.StringIO()
        with mock.patch.object(ls.requests, "get", get), contextlib.redirect_stdout(out):
            try:
                cli.cli.main(args, standalone_mode=False)
            except Exception as e:
                env.fail("%s: %s: %s" % (" ".join(args), type(e).__name__, e))
        written = json.load(open("langspec.json")) if way.split()[0] in ("fetch", "update") else None
    lines = [l for l in out.getvalue().split("\n") if l and not l.startswith("New ops")]
    want = only_b if way == "diff" else only_a
    heads = [l.split("(")[0] for l in lines]
    if sorted(heads) != sorted(want):
        env.fail("%s reports %s, expected %s" % (" ".join(args), heads, want))
    if written is not None and written != a:
        env.fail("%s does not store the document that it fetched" % " ".join(args))
    if way == "fetch blob" and asked != [blob % "raw"]:
        env.fail("%s asks for %s" % (" ".join(args), asked))
    if way in ("update", "fetch branch"):
        branch = "master" if way == "update" else "rel/beta"
        if asked != ["https://github.com/algorand/go-algorand/raw/%s/data/transactions/logic/langspec.json" % branch]:
            env.fail("%s asks for %s" % (" ".join(args), asked))
    env.reached()


def names_of(names):
    return [n for n in names if n.isidentifier() and n not in STATEMENTS]


def jobs(tier):
    deep = tier == "thorough"
    out = []
    names = names_of(SPEC) + ["method"]
    # opcodes with many fields apart
    for i in range(0, len(names), 4):
        out.append(("packaged/" + ",".join(names[i:i + 4]), "packaged", dict(names=names[i:i + 4], deep=deep)))
    for name in ("newop", "sha256"):
        for nargs in range(4 if deep else 3):
            for nret in range(3):
                if name == "newop" or (nargs, nret) in ((0, 1), (2, 1), (1, 0), (0, 2)):
                    out.append(("local/%s %d %d" % (name, nargs, nret), "new_op", dict(name=name, nargs=nargs, nret=nret, deep=deep and nargs < 3)))
        for i in range(1, len(IMMS)):
            for nargs, nret in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)] if deep else [(0, 1), (1, 0)]:
                out.append(("local/%s imm%d %d %d" % (name, i, nargs, nret), "new_op", dict(name=name, nargs=nargs, nret=nret, deep=deep, imms=i)))
    out.append(("local/dropped", "dropped", {}))
    for f in FIELDS:
        out.append(("fields/" + f, "fields", dict(form=f)))
    for w in ("pair", "new", "packaged", "local", "diff", "diff local", "fetch", "fetch blob", "fetch branch", "update"):
        out.append(("compare/" + w, "compared", dict(way=w)))
    if deep:
        out = [(n, f, p, {"deadline": 3000}) for n, f, p in out]
    return out
