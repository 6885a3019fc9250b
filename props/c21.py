"""C21 the command line tools write exactly what the compiler returns"""
import contextlib
import json
import os
import shutil
import sys
import tempfile

from .common import *
from vlib import core, scen
from .c13 import vlq

ID = "C21"
BOUNDS = {
    "contents": "13 programs (3 invalid) with symbolic integer literals (up to 2^16-1 and 2^8-1 in the programs of several files and of the literal program, 2^64-1 elsewhere), struct sizes and 1-4 symbolic characters in assert messages, strings and comments (printable ASCII except quote and backslash)",
    "names": "24 file names (dots, .tl inside, blanks, no extension, non-ASCII) alone, and directories of 1-3 files with every pair of 8 names, with and without an invalid one, existing outputs, nested directories",
    "commands": "compile and build of files and directories (algod and goal), quiet and not, format, inspect; existing files longer, shorter or equal",
    "assembler": "bytecode and source maps with up to 4 entries (line deltas -1..3 or none), failures of the assembler",
}
ASSUMPTIONS = [
    "files are written in a scratch directory; algod is replaced by a stub that records the request, goal by a script that records its input",
    "what the library functions return is decided by the other properties",
]
LEVEL = "other"
EXPLANATION = ("Bounded symbolic execution of the command line tools on files with symbolic characters and numbers: on every path the files they write are compared by the solver with what the "
               "library functions return for the text, and the written source map is loaded back.")
TECHNIQUE = "symbolic execution of the command line tools on files with symbolic characters and numbers, z3 equality with the results of the library functions"
NOTE = "Within the bounds of the evidence file every output file is exactly the library's result, the written map loads back as it was, and errors leave all files alone"
LIMITS = {"deadline": 120}

CH = frozenset(range(32, 127)) - {34, 92}
H = ["#pragma version 8"]
PROGRAMS = {
    "message": H + ['assert(Txn.Fee, "@4")', "exit(1)"],
    "messages": H + ['assert(Txn.Fee, "a@2b")', 'assert(Txn.Amount, "@1")', 'assert(Txn.TypeEnum, "[x@2")', "exit(1)"],
    "brackets": H + ['assert(Txn.Fee, "f(a[1], b[2], [])")', 'assert(Txn.Fee, "]@1]@1")', "exit(1)"],
    "string": H + ['log("@3")', "exit(1)"],
    "comment": H + ["# @3", "exit(1)", "# end @1"],
    "literal": H + ["int x = @v", "log(itob(x + @w))", "exit(x)"],
    "struct": H + ["struct Item:", "    id: int", "    data: bytes[@n]", "end", "Item v = bzero(SizeOf(Item))", "v.id = @v", "exit(v.id)"],
    "functions": H + ["exit(ff(@v))", "", "func ff(a: int) int:", "    # c", "    return a + 1", "end"],
    "unicode": H + ["# caf\u00e9 \u2713", 'log("\u00e9@1")', "exit(1)"],
    "minimal": ["exit(1)"],
    "bad syntax": H + ["int x = 1 +", "exit(x)"],
    "bad type": H + ['int x = "@1"', "exit(x)"],
    "bad end": H + ["if Txn.Fee:", "exit(1)"],
}


def text(env, name, nl=True, tag=""):
    template = "\n".join(PROGRAMS[name]) + ("\n" if nl else "")
    parts = template.split("@")
    out = parts[0]
    for k, part in enumerate(parts[1:]):
        c, rest = part[0], part[1:]
        if c in "1234":
            for j in range("01234".index(c)):
                out += str.__str__(env.sym_text("%sc%d_%d" % (tag, k, j), 1, CH))
        elif c == "n":
            out += "%s" % env.sym_int("%sn%d" % (tag, k), 1, 300)
        else:
            # a code that sizes literals by cases forks once per size
            out += "%s" % env.sym_int("%sv%d" % (tag, k), 0, U64 - 1 if tag == "" and c == "v" and name != "literal" else 65535 if c == "v" else 255)
        out += rest
    return out


def cli_module():
    import tealish.cli
    return sys.modules["tealish.cli"]


DUMPS = json.dumps
GOAL = """#!/bin/sh
[ -e DIR/stdin ] && echo twice >> DIR/stdin
cat >> DIR/stdin
[ -n "FAIL" ] && { echo "line 3: no"; exit 1; }
o=
while [ $# -gt 0 ]; do
    [ "$1" = -o ] && o=$2
    shift
done
cp DIR/code "$o" && cp DIR/map "$o.map" || exit 1
echo "$o" > DIR/path
if [ -e DIR/otherpath ]; then
    o=$(cat DIR/otherpath)
    [ -d "$(dirname "$o")" ] && cp DIR/othercode "$o" && cp DIR/othermap "$o.map"
fi
exit 0
"""


class Tools:
    """the command line tools in a scratch directory"""

    def __init__(self, env):
        self.env = env
        self.saved = []

    def __enter__(self):
        env = self.env
        self.dir = tempfile.mkdtemp(prefix="verif-cli-")
        self.side = tempfile.mkdtemp(prefix="verif-goal-")
        self.path = os.environ.get("PATH", "")
        os.environ["PATH"] = self.side + os.pathsep + self.path
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        m = cli_module()
        self.m = m
        if not env.concrete:
            import subprocess
            communicate = subprocess.Popen.communicate
            self.set(subprocess.Popen, "communicate",
                     lambda p, input=None, timeout=None: communicate(p, str.__str__(input.text).encode() if hasattr(input, "text") else input, timeout))
            for n in ("compile_program", "reformat_program", "inspect_program"):
                f = getattr(m, n, None)
                if f is not None:
                    self.set(m, n, lambda s, f=f: f(env.lift(s)))
            dumps = json.dumps

            def plain(o):
                if isinstance(o, str):
                    return str.__str__(o)
                if isinstance(o, dict):
                    return {plain(k): plain(v) for k, v in o.items()}
                if isinstance(o, (list, tuple)):
                    return [plain(v) for v in o]
                if type(o).__name__ == "SymInt":
                    return int(str.__str__(str(o)))
                return o

            def sdumps(o, **k):
                k["ensure_ascii"] = False
                return env.lift(dumps(plain(o), **k))
            self.set(json, "dumps", sdumps)
            self.set(json, "dump", lambda o, f, **k: f.write(sdumps(o, **k)))
        return self

    def set(self, o, n, v):
        self.saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)

    def __exit__(self, *a):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)
        os.chdir(self.cwd)
        os.environ["PATH"] = self.path
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.side, ignore_errors=True)

    def write(self, name, content):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(str.__str__(content).encode("utf-8") if isinstance(content, str) else content)

    def read(self, name):
        with open(os.path.join(self.dir, name), "rb") as f:
            return f.read()

    def goal(self, code, smap, fail, late=False):
        """a goal command that writes the given result to the file it is told to write; with late, the result of the
        run before is written once more to the file of that run before this one returns"""
        g = self.side
        if late:
            for n in ("path", "code", "map"):
                os.rename(os.path.join(g, n), os.path.join(g, "other" + n))
        for n in ("path", "stdin"):
            if os.path.exists(os.path.join(g, n)):
                os.remove(os.path.join(g, n))
        with open(os.path.join(g, "code"), "wb") as f:
            f.write(code)
        with open(os.path.join(g, "map"), "w") as f:
            f.write(DUMPS(smap))
        with open(os.path.join(g, "goal"), "w") as f:
            f.write(GOAL.replace("DIR", g).replace("FAIL", "1" if fail else ""))
        os.chmod(os.path.join(g, "goal"), 0o755)

    def asked(self):
        with open(os.path.join(self.side, "stdin"), "rb") as f:
            return f.read().decode("utf-8")

    def text(self, name):
        return self.env.lift(self.read(name).decode("utf-8"))

    def files(self):
        r = {}
        for root, dirs, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(root, f)
                with open(p, "rb") as h:
                    r[os.path.relpath(p, self.dir)] = h.read()
        return r

    def run(self, *args):
        """(exit code, output): a tool that fails with an exception other than ClickException is a traceback"""
        from click.testing import CliRunner
        r = CliRunner().invoke(self.m.cli, list(args), catch_exceptions=True)
        self.exception = r.exception if not isinstance(r.exception, SystemExit) else None
        self.output = r.output
        return r.exit_code


def library(env, content):
    """what the library functions return for the text"""
    return env.compile(env.lift(content))


def same(env, a, b, what):
    from .c16 import same_numbers
    a, b = env.lift(a), env.lift(b)
    if not a == b and not same_numbers(env, str.__str__(a), str.__str__(b)):
        env.fail("%s: %r, the library gives %r" % (what, str.__str__(a)[-200:], str.__str__(b)[-200:]))


def expect_files(env, t, before, changed, what):
    """no file but the expected ones appears, disappears or changes"""
    now = t.files()
    for f in sorted(set(now) | set(before)):
        if f in changed:
            if f not in now:
                env.fail("%s: %s is not written" % (what, f))
            continue
        if now.get(f) != before.get(f):
            env.fail("%s: file %s %s" % (what, f, "appears" if f not in before else "disappears" if f not in now else "changes"))


def errors(env, t, r, what):
    if t.exception is not None:
        env.fail("%s: traceback %s: %s" % (what, type(t.exception).__name__, t.exception))
    msg = env.lift(str.__str__(r.err).split("\n")[0])
    if not env.lift(t.output).find(msg) >= 0:
        env.fail("%s: the error %r is not reported: %r" % (what, str.__str__(msg), t.output))


def teal_text(r):
    out = ""
    for l in r.lines:
        out = out + str.__str__(l) + "\n"
    return out


def compiling(env, prog, opts, old):
    c = text(env, prog)
    env.notes["source"] = c
    r = library(env, c)
    with Tools(env) as t:
        t.write("dir/prog.tl", c)
        t.write("dir/other.txt", "x")
        if old:
            t.write("dir/build/prog.teal", "old\n" * old)
            t.write("dir/build/else.teal", "old\n")
        before = t.files()
        args = (["-q"] if opts & 1 else []) + ["compile"] + ["dir/prog.tl" if not opts & 2 else "dir"]
        code = t.run(*args)
        env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
        if not r.ok:
            if code == 0:
                env.fail("compile of an invalid program succeeds")
            errors(env, t, r, "compile")
            expect_files(env, t, before, (), "failed compile")
        else:
            if code != 0:
                env.fail("compile of a valid program fails: %s %r" % (t.output, t.exception))
            expect_files(env, t, before, ("dir/build/prog.teal",), "compile")
            same(env, t.text("dir/build/prog.teal"), teal_text(r), "TEAL file")
            if opts & 1 and t.output.strip():
                env.fail("quiet compile prints %r" % t.output)
    env.reached()


MAPS = [[0, 1, 2], [None, 0, None, 1], [0, 0, 3, 2], [1, None, None, 0], [None]]


def building(env, prog, how, opts):
    c = text(env, prog)
    env.notes["source"] = c
    r = library(env, c)
    lines = MAPS[env.choose(2 if prog == "messages" or how == "goal" else len(MAPS), "map")]
    out, last, pcs = [], 0, {}
    for pc, l in enumerate(lines):
        if l is None:
            out.append("")
        else:
            out.append("AA" + vlq(l - last) + "A")
            last = l
        # a byte without an entry belongs to the line of the byte before it
        pcs[pc] = last + 1
    raw = {"version": 3, "sources": ["x.teal"], "names": [], "mappings": ";".join(out)}
    code_bytes = [b"\x08\x81\x01", b"", b"\x00\r\n\xff"][env.choose(1 if prog == "messages" or opts & 8 else 3, "bytes")]
    fail = env.choose(2, "assembler fails") if opts & 4 else 0
    seen = []
    import base64
    import tealish.build as B_

    class Algod:
        def __init__(self, token, url, *a, **k):
            self.at = (token, url)

        def compile(self, source, source_map=False, *a, **k):
            seen.append((self.at, source, source_map))
            if fail:
                raise ValueError("line 3: no")
            return {"result": base64.b64encode(code_bytes).decode(), "hash": "X", "sourcemap": raw}

    with Tools(env) as t:
        t.set(B_, "AlgodClient", Algod)
        if how == "goal":
            t.goal(code_bytes, raw, fail)
        t.write("dir/prog.tl", c)
        if opts & 1:
            for n in ("prog.teal", "prog.teal.tok", "prog.map.json"):
                t.write("dir/build/" + n, "old " * 3000)
        if opts & 8:
            # another build is running at the same time and its assembler ends just after this one
            t.write("other.tl", "exit(7)\n")
            t.goal(b"other", {"version": 3, "sources": [], "names": [], "mappings": "AAAA"}, 0)
            if t.run("build", "--goal", "other.tl") != 0:
                env.fail("build fails: %s" % t.output)
            t.goal(code_bytes, raw, fail, late=True)
        before = t.files()
        url = {"algod": [], "url": ["--algod-url", "http://x:40"], "token": ["--algod-url", "http://x:40#tok"], "goal": ["--goal"]}[how]
        code = t.run(*((["-q"] if opts & 2 else []) + ["build"] + url + ["dir" if opts & 2 else "dir/prog.tl"]))
        env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
        if not r.ok:
            if code == 0:
                env.fail("build of an invalid program succeeds")
            errors(env, t, r, "build")
            expect_files(env, t, before, (), "failed build")
            return env.reached()
        if fail:
            if code == 0:
                env.fail("build succeeds although the assembler fails")
            if t.exception is not None:
                env.fail("build: traceback %r" % t.exception)
            if "line 3: no" not in t.output:
                env.fail("the error of the assembler is not reported: %r" % t.output)
            expect_files(env, t, before, ("dir/build/prog.teal",), "failed build")
            return env.reached()
        if code != 0:
            env.fail("build of a valid program fails: %s %r" % (t.output, t.exception))
        expect_files(env, t, before, ("dir/build/prog.teal", "dir/build/prog.teal.tok", "dir/build/prog.map.json"), "build")
        same(env, t.text("dir/build/prog.teal"), teal_text(r), "TEAL file")
        if t.read("dir/build/prog.teal.tok") != code_bytes:
            env.fail("bytecode file: %r" % t.read("dir/build/prog.teal.tok"))
        if how == "goal":
            seen.append((None, env.lift(t.asked()), True))
        if len(seen) != 1:
            env.fail("%d calls of the assembler" % len(seen))
        at, teal, sm = seen[0]
        same(env, teal, teal_text(r), "TEAL given to the assembler")
        want = {"url": ("", "http://x:40"), "token": ("tok", "http://x:40"), "goal": None, "algod": ("", "https://testnet-api.algonode.cloud")}[how]
        if at != want or not sm:
            env.fail("assembler asked at %r (source map %r)" % (at, sm))
        try:
            loaded = json.loads(str.__str__(t.text("dir/build/prog.map.json")))
        except ValueError as e:
            env.fail("the map file is no JSON: %s" % e)
        from tealish.utils import TealishMap
        m = TealishMap(loaded)
        if m.pc_teal != pcs:
            env.fail("program counters of the map file: %r, expected %r" % (m.pc_teal, pcs))
        if m.teal_tealish != r.tmap.teal_tealish:
            env.fail("lines of the map file differ")
        if sorted(m.errors) != sorted(r.tmap.errors):
            env.fail("messages of the map file at lines %r, expected %r" % (sorted(m.errors), sorted(r.tmap.errors)))
        for k in m.errors:
            if not env.lift(m.errors[k]) == env.lift(r.tmap.errors[k]):
                env.fail("message of line %d in the map file: %r" % (k, m.errors[k]))
    env.reached()


NAMES = ["a.tl", "prog.tl", "a.b.tl", "a.tl.tl", "x.tl.y.tl", "a.tlx.tl", ".tl.tl", "my prog.tl", "caf\u00e9.tl", "a-b_c.tl", "A.TL", "a", "prog.txt", "prog.tl.txt", "tl.tl", "build.tl", "a..tl",
         "b.teal", "b.teal.tl", "title.tl", "1.tl", "a.tl.bak", "v1.0.tl", "html.tl"]


def base(name):
    return name[:-3] if name.endswith(".tl") else None


def naming(env, k, other):
    """outputs are named after the source: one output per source, none shared"""
    name = NAMES[k]
    c = text(env, "literal")
    d = text(env, "string", tag="d")
    r, q = library(env, c), library(env, d)
    with Tools(env) as t:
        t.write("dir/" + name, c)
        names = [name]
        if other is not None:
            t.write("dir/" + NAMES[other], d)
            names.append(NAMES[other])
        t.write("dir/sub/deep.tl", "bad")
        before = t.files()
        code = t.run("compile", "dir" if other is not None else "dir/" + name)
        env.trace = [("outcome", "accepted", None)]
        if code != 0:
            env.fail("compile fails: %s %r" % (t.output, t.exception))
        if other is not None:
            names = [n for n in names if n.endswith(".tl")]
        outs = {}
        now = t.files()
        new = sorted(f for f in now if f not in before)
        expect_files(env, t, before, set(new), "compile")
        want = {n: "dir/build/%s.teal" % (base(n) if base(n) is not None else "?") for n in names}
        for n, f in want.items():
            if base(n) is None:
                if len(new) != 1:
                    env.fail("outputs of %s: %r" % (n, new))
                f = new[0]
                if os.path.dirname(f) != "dir/build" or not f.endswith(".teal") or os.path.basename(f)[:-5] not in (n, os.path.splitext(n)[0], n.replace(".tl", "")):
                    env.fail("output of %s: %s" % (n, f))
            elif f not in new:
                env.fail("source %s has no output %s (outputs: %s)" % (n, f, new))
            same(env, t.text(f), teal_text(r if n == name else q), "TEAL of %s" % n)
        if len(new) != len(want):
            env.fail("outputs of %s: %s" % (sorted(want), new))
    env.reached()


def directory(env, n, bad):
    """several programs in one directory: each gets its own output"""
    progs = ["literal", "unicode", "struct"][:n]
    cs = [text(env, p, tag=str(i)) for i, p in enumerate(progs)]
    rs = [library(env, c) for c in cs]
    with Tools(env) as t:
        for i, c in enumerate(cs):
            t.write("dir/p%d.tl" % i, c)
        if bad:
            t.write("dir/%s.tl" % ("p5" if bad == 1 else "a"), "int x = \n")
        before = t.files()
        code = t.run("compile", "dir")
        env.trace = [("outcome", "accepted", None)]
        if (code != 0) != bool(bad):
            env.fail("exit code %d" % code)
        now = t.files()
        new = [f for f in now if f not in before]
        expect_files(env, t, before, set(new), "compile")
        for f in new:
            k = os.path.basename(f)
            if k not in ("p%d.teal" % i for i in range(n)):
                env.fail("unexpected output %s" % f)
            same(env, t.text(f), teal_text(rs[int(k[1])]), "TEAL of %s" % k)
        if not bad and len(new) != n:
            env.fail("outputs: %r" % new)
    env.reached()


def formatting(env, prog, form):
    c = text(env, prog)
    if form == "spread":
        c = "\n".join(l + "        " for l in str.__str__(c).split("\n"))
    elif form == "blank":
        c = "\n\n" + c + "\n\n\n"
    elif form == "indent":
        c = "\n".join("\t  " + l for l in str.__str__(c).split("\n"))
    elif form == "no newline":
        c = c[:-1]
    env.notes["source"] = c
    import tealish
    from tealish.errors import CompileError, ParseError
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            want = tealish.reformat_program(env.lift(c))
    except (ParseError, CompileError) as e:
        want = None
        r = scen.CompileResult(False, err=str(e))
    with Tools(env) as t:
        t.write("prog.tl", c)
        t.write("other.tl", "exit( 1 )")
        before = t.files()
        code = t.run("format", "prog.tl")
        env.trace = [("outcome", "accepted" if want is not None else "rejected", None)]
        if want is None:
            if code == 0:
                env.fail("format of an invalid program succeeds")
            errors(env, t, r, "format")
            expect_files(env, t, before, (), "failed format")
        else:
            if code != 0:
                env.fail("format fails: %s %r" % (t.output, t.exception))
            expect_files(env, t, before, ("prog.tl",), "format")
            same(env, t.text("prog.tl"), want, "formatted file")
    env.reached()


def inspecting(env, prog):
    c = text(env, prog)
    env.notes["source"] = c
    import tealish
    from tealish.errors import CompileError, ParseError
    import io
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            want = tealish.inspect_program(env.lift(c))
    except (ParseError, CompileError) as e:
        want = None
        r = scen.CompileResult(False, err=str(e))
    with Tools(env) as t:
        t.write("prog.tl", c)
        before = t.files()
        code = t.run("inspect", "prog.tl")
        env.trace = [("outcome", "accepted" if want is not None else "rejected", None)]
        if want is None:
            if code == 0:
                env.fail("inspect of an invalid program succeeds")
            errors(env, t, r, "inspect")
        else:
            if code != 0:
                env.fail("inspect fails: %s %r" % (t.output, t.exception))
            got = json.loads(str.__str__(t.output))
            flat(env, got, want, "inspection")
        expect_files(env, t, before, (), "inspect")
    env.reached()


def flat(env, a, b, what):
    if isinstance(b, dict):
        if sorted(a) != sorted(b):
            env.fail("%s: %r, the library gives %r" % (what, sorted(a), sorted(b)))
        for k in b:
            flat(env, a[k], b[k], what + " " + k)
        return
    if isinstance(b, str):
        return same(env, a, b, what)
    x = core.BACK.magic_lookup(str(a)) if hasattr(core.BACK, "magic_lookup") else None
    env.check((a if x is None else x) == b, what)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for p in PROGRAMS:
        for opts in range(4):
            for old in (0, 1, 900):
                if deep or (opts + old) % 3 == 0 or opts == 0:
                    out.append(("compile/%s/%d/%d" % (p, opts, old), "compiling", dict(prog=p, opts=opts, old=old)))
        for how in ("algod", "url", "token", "goal"):
            for opts in range(8):
                if deep or how == "algod" and opts in (0, 4) or (opts, how) in ((1, "url"), (6, "goal"), (3, "token")):
                    out.append(("build/%s/%s/%d" % (p, how, opts), "building", dict(prog=p, how=how, opts=opts)))
        if deep or p in ("literal", "message", "minimal"):
            out.append(("build/%s/at once" % p, "building", dict(prog=p, how="goal", opts=8)))
        for form in ("as is", "spread", "blank", "indent", "no newline"):
            out.append(("format/%s/%s" % (p, form), "formatting", dict(prog=p, form=form)))
        out.append(("inspect/%s" % p, "inspecting", dict(prog=p)))
    for k in range(len(NAMES)):
        out.append(("name/%s" % NAMES[k], "naming", dict(k=k, other=None)))
        for o in range(len(NAMES)):
            if k < o and (deep or k < 8 and o < 8 or k == 0 and NAMES[o] in ("A.TL", "a", "prog.txt", "prog.tl.txt", "b.teal", "a.tl.bak")):
                out.append(("name/%s and %s" % (NAMES[k], NAMES[o]), "naming", dict(k=k, other=o)))
    for n in (1, 2, 3):
        for bad in (0, 1, 2):
            out.append(("directory/%d/%d" % (n, bad), "directory", dict(n=n, bad=bad)))
    return out
