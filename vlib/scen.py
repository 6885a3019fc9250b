"""Scenario environments.  A scenario is a Python function fn(env, **params)
that draws structure choices and symbolic integers from env, drives the real
compiler and states obligations.  SymEnv decides them with z3 over all values;
ConEnv re-runs the same scenario on concrete values taken from a solver model
(used for replay, without z3 and without any patching of the code under test)."""
import os
import signal
import sys
import contextlib
import io

from . import core, avm
from .core import AsmError, IllTyped, and_, or_, not_

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup_paths():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    if SITE not in sys.path and sys.executable != "/opt/venv/bin/python":
        sys.path.append(SITE)
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    sys.dont_write_bytecode = True


class Failed(BaseException):
    """an obligation does not hold on this path (already recorded)"""


class CompileResult:
    def __init__(self, ok, lines=None, tmap=None, err=None, kind=None):
        self.ok, self.lines, self.tmap, self.err, self.kind = ok, lines, tmap, err, kind


class Hang(BaseException):
    """the code under test does not come back"""


class guard:
    """raises Hang in the guarded code after `limit` seconds"""

    def __init__(self, limit=20):
        self.limit = limit

    def __enter__(self):
        def handler(sig, frame):
            raise Hang()
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.limit)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class BaseEnv:
    concrete = False
    world_class = avm.World

    def __init__(self):
        self.case = ""
        self.notes = {}
        self.trace = []

    def raw_compile(self, src):
        import tealish
        from tealish.errors import CompileError, ParseError
        buf = io.StringIO()
        try:
            with guard(), contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                lines, tmap = tealish.compile_program(src)
            return CompileResult(True, list(lines), tmap)
        except CompileError as e:
            return CompileResult(False, err=str(e), kind="CompileError")
        except ParseError as e:
            return CompileResult(False, err=str(e), kind="ParseError")
        except (core.Panic, AsmError, IllTyped):
            raise
        except Hang:
            return CompileResult(False, err="the compiler does not terminate (20 s)", kind="Hang")
        except Exception as e:
            return CompileResult(False, err="%s: %s" % (type(e).__name__, e), kind=type(e).__name__)

    # -------- translation validation of one program --------
    def run_program(self, prog, fuel=6, lines=True, expect_ok=True, src=None, check_depth=True,
                    check_slots=None, teal_post=None, avm_fuel=8000):
        """compile with the real compiler, execute the emitted TEAL and the
        reference on the same (symbolic) inputs, state that they agree"""
        src = prog.source() if src is None else src
        self.notes["source"] = src
        res = self.compile(src)
        if not res.ok:
            self.fail("valid program rejected: %s: %s" % (res.kind, res.err))
        self.run_teal(prog, res, fuel, lines, check_depth, teal_post, avm_fuel)
        return res

    def run_teal(self, prog, res, fuel=6, lines=True, check_depth=True, teal_post=None, avm_fuel=8000):
        teal = res.lines if teal_post is None else teal_post(res.lines)
        try:
            ap = self.assemble(teal)
        except AsmError as e:
            self.fail("emitted TEAL does not assemble: %s" % e)
        m = res.tmap.teal_tealish if lines else {}
        w1 = self.world_class()
        ref = prog.run(w1, fuel)
        w2 = self.world_class()
        bad = []
        if check_depth:
            nres = {}
            for f in self.all_funcs(prog.stmts):
                nres.setdefault(f.name, (len(f.params), len(f.rets)))

            def on_ret(lab, d0, d1):
                name = lab.split("__func__")[-1]
                if name in nres:
                    p, r = nres[name]
                    if d1 != d0 - p + r:
                        bad.append((lab, d0, d1))
            w2.on_ret = on_ret
        limit = len(w1.events) if ref.kind == "cut" else None
        try:
            out = avm.execute(ap, w2, lambda l: m.get(l), fuel=avm_fuel, event_limit=limit)
        except IllTyped as e:
            self.fail("emitted TEAL is ill-typed at TEAL line %s: %s" % (getattr(w2, "teal_line", None), e))
        if bad:
            self.fail("subroutine %s changes the caller's stack (depth %d -> %d)" % bad[0])
        self.last = (ref, w1, out, w2)
        self.compare(ref, w1, out, w2, lines)

    def all_funcs(self, stmts):
        from .lang import Func, Block
        for s in stmts:
            if isinstance(s, Func):
                yield s
            elif isinstance(s, Block):
                yield from self.all_funcs(s.body)

    def same_line(self, a, b):
        if a is None:
            return True
        if isinstance(a, frozenset):
            return b in a
        return a == b

    def compare(self, ref, w1, out, w2, lines):
        D = core.D
        e1, e2 = w1.events, w2.events
        self.trace = [("outcome", ref.kind, ref.value if ref.kind == "exit" else None)]
        self.trace += [("event", k, i, a) for (k, i, a, l) in e1]
        if ref.kind == "panic" and out.kind == "panic":
            if lines and not self.same_line(ref.line, out.line):
                self.fail("failure is attributed to line %s, expected %s" % (out.line, show_line(ref.line)))
            self.reached()
            return
        n = min(len(e1), len(e2))
        if ref.kind == "cut":
            if out.kind != "cut" and len(e2) < len(e1):
                self.fail("program stops early: %r; reference continues" % (out,))
        else:
            if out.kind != ref.kind:
                self.fail("outcome differs: TEAL %r, source %r" % (out, ref))
            if len(e1) != len(e2):
                self.fail("number of effects differs: TEAL %d, source %d: %s / %s"
                          % (len(e2), len(e1), [x[:2] for x in e2], [x[:2] for x in e1]))
        goals = []
        for j in range(n):
            (k1, i1, a1, l1), (k2, i2, a2, l2) = e1[j], e2[j]
            if k1 != k2 or i1 != i2:
                self.fail("effect %d differs: TEAL %s%r, source %s%r" % (j, k2, i2, k1, i1))
            if lines and not self.same_line(l1, l2):
                self.fail("effect %d (%s) is attributed to line %s, expected %s" % (j, k1, l2, show_line(l1)))
            for x, y in zip(a1, a2):
                goals.append(("effect %d %s operand" % (j, k1), self.value_goal(x, y)))
        if ref.kind == "exit":
            goals.append(("exit value", self.value_goal(ref.value, out.value)))
            # final box contents
            if w1.boxes or w2.boxes:
                for (k, _, _) in w1.boxes + w2.boxes:
                    x1, c1 = w1.box(k)
                    x2, c2 = w2.box(k)
                    x1, x2 = bool(x1), bool(x2)
                    if x1 != x2:
                        self.fail("box existence differs at the end")
                    if x1:
                        goals.append(("box content", D.b_goal(c1, c2)))
        self.check_all(goals)

    def value_goal(self, x, y):
        D = core.D
        from .core import AnyVal
        if isinstance(x, AnyVal) and isinstance(y, AnyVal):
            if x.fname != y.fname or len(x.args) != len(y.args):
                return False
            return and_(*[self.value_goal(p, q) if not isinstance(p, str) else p == q
                          for p, q in zip(x.args, y.args)])
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        if isinstance(x, AnyVal):
            x = avm.B(x) if D.is_bytes(y) else avm.U(x)
        if isinstance(y, AnyVal):
            y = avm.B(y) if D.is_bytes(x) else avm.U(y)
        if D.is_bytes(x) != D.is_bytes(y):
            return False
        if D.is_bytes(x):
            return D.b_goal(x, y)
        return x == y

    def check(self, cond, msg):
        self.check_all([(msg, cond)])


def show_line(l):
    if isinstance(l, frozenset):
        return "one of %s" % sorted(x for x in l if x is not None)
    return l


class ConEnv(BaseEnv):
    """concrete replay"""
    concrete = True

    def __init__(self, inputs, tables):
        super().__init__()
        from . import condom
        core.set_domain(condom.ConD(tables))
        core.set_backend(self)
        self.inputs = inputs
        self.failure = None

    def magic_lookup(self, tok):
        return None

    def choose(self, n, name):
        return int(self.inputs[name])

    def sym_int(self, name, lo, hi):
        return int(self.inputs[name])

    def sym_text(self, name, n, domain):
        return "".join(chr(int(self.inputs["%s%d" % (name, i)])) for i in range(n))

    def lift(self, s):
        return s

    def assume(self, c):
        if not c:
            raise Failed("assumption does not hold in the replay")

    def fork(self, c):
        return bool(c)

    def opaque_int(self, name):
        return core.D.opaque("U", "in|" + name, [])

    def compile(self, src):
        return self.raw_compile(src)

    def assemble(self, lines):
        return avm.Program(lines)

    def fail(self, msg):
        self.failure = msg
        raise Failed(msg)

    def check_all(self, goals):
        for msg, g in goals:
            if not g:
                self.fail("%s differs" % msg)
        self.reached()

    def reached(self):
        self.notes["reached"] = self.notes.get("reached", 0) + 1

    def describe(self, msg):
        pass
