"""Solver-side scenario environment and the `int` shim that lets symbolic
integers travel through the compiler's own source text -> int -> text path."""
import builtins
import sys
import time

import z3

from . import core, avm, engine, symdom
from .core import AsmError, and_
from .engine import SymInt, SymBool, mkint, b_of
from .scen import BaseEnv, Failed, CompileResult

_int = builtins.int


class _IntMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, str):
                e = engine.ENG
                if e is not None:
                    t = e.magic.get(x.strip())
                    if t is not None:
                        return mkint(t)
        return _int(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, (_int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (_int, SymInt))

    def __eq__(cls, o):
        return o is _int or o is cls

    def __hash__(cls):
        return hash(_int)

    def __getattr__(cls, n):
        return getattr(_int, n)


class symint(metaclass=_IntMeta):
    pass


def patch_int():
    import importlib
    import pkgutil
    import tealish
    for _, name, _ in pkgutil.iter_modules(tealish.__path__):
        if name != "__main__":
            try:
                importlib.import_module("tealish." + name)
            except Exception:
                pass
    for name, m in list(sys.modules.items()):
        if name == "tealish" or name.startswith("tealish."):
            if m is not None and "int" not in vars(m):
                m.int = symint


_trees = {}


def cache_parser():
    """parse each concrete expression text once per process (parsing dominates
    the run time); every use gets its own copy of the untouched tree.  Replays
    run without this."""
    import copy
    import tealish.nodes as N
    orig = getattr(N, "parse_expression", None)
    if orig is None:
        return

    def parse_expression(source):
        if not isinstance(source, str) or type(source) is not str or str(engine.MAGIC_BASE)[:7] in source or not parser_cache_on[0]:
            return orig(source)
        hit = _trees.get(source)
        if hit is None:
            tree = orig(source)
            memo = {}
            for name in ("_tx_parser", "_tx_metamodel", "_tx_model_params"):
                x = getattr(tree, name, None)
                if x is not None:
                    memo[id(x)] = x
            if len(_trees) > 30000:
                _trees.clear()
            hit = _trees[source] = (tree, memo)
        return copy.deepcopy(hit[0], dict(hit[1]))
    N.parse_expression = parse_expression


parser_cache_on = [True]


class SymEnv(BaseEnv):
    def __init__(self, eng, job):
        super().__init__()
        self.e = eng
        self.job = job
        self.cache = {}
        self.violations = []
        self.comparisons = 0
        self.samples = []
        self.disagreements = 0
        self.programs = set()

    def begin(self):
        self.case = ""
        self.notes = {}
        self.trace = []

    def choose(self, n, name):
        return self.e.choose(n, name)

    def sym_int(self, name, lo, hi):
        return self.e.sym_int(name, lo, hi)

    def assume(self, c):
        self.e.assume_checked(c)

    def fork(self, c):
        return bool(c)

    def sym_text(self, name, n, domain):
        """n symbolic characters with code points from domain"""
        from . import symstr
        r = ""
        for i in range(n):
            r = r + symstr.new_char(self.e, "%s%d" % (name, i), domain)
        return r

    def lift(self, s):
        from . import symstr
        return symstr.lift(s)

    def opaque_int(self, name):
        return core.D.opaque("U", "in|" + name, [])

    def compile(self, src):
        if self.e.chars:
            self.programs.add(hash(str.__str__(src)))
            return self.raw_compile(self.lift(src))
        plain = not self.e.magic
        if plain and src in self.cache:
            return self.cache[src]
        r = self.raw_compile(src)
        if plain and not self.e.magic:
            if len(self.cache) > 400:
                self.cache.clear()
            self.cache[src] = r
            self.programs.add(hash(src))
        else:
            self.programs.add(hash(src))
        return r

    def assemble(self, lines):
        if not self.e.magic and not self.e.chars:
            k = ("asm", tuple(lines))
            if k not in self.cache:
                try:
                    self.cache[k] = avm.Program(lines)
                except AsmError as x:
                    self.cache[k] = x
            r = self.cache[k]
            if isinstance(r, AsmError):
                raise r
            return r
        return avm.Program(lines)

    # ---- obligations ----
    def reached(self):
        self.comparisons += 1
        self.e.stats["checks"] += 1
        self.e.stats["discharged"] += 1
        if len(self.samples) < 3 and "source" in self.notes:
            src = self.notes["source"]
            if self.e.chars:
                m = self.e.solver.model() if self.e._check() == z3.sat else None
                src = m and self.readable(src, m)
            if src:
                self.samples.append(src[:600])

    def check_all(self, goals):
        todo = [(m, g) for m, g in goals if g is not True]
        if todo:
            g = and_(*[g for _, g in todo])
            ok, model = self.e.valid(g)
            if not ok:
                for m, x in todo:
                    ok1, model1 = self.e.valid(x)
                    if not ok1:
                        if self.spurious(x):
                            continue
                        self.record(m + " differs", self.last_model(model1))
                        raise Failed(m)
        self.reached()

    def last_model(self, m):
        return getattr(self, "_refined", None) or m

    def spurious(self, goal):
        """re-ask with extensionality between all opaque byte strings"""
        self._refined = None
        if len(self.e.ids) < 2 and not self.e.uf2_log:
            return False
        r, m = self.refine(z3.Not(b_of(goal)) if goal is not False else z3.BoolVal(True))
        if r == z3.unsat:
            return True
        self._refined = m
        return False

    def refine(self, neg, rounds=30):
        """(verdict, model) of path and neg, with opaque byte strings extensional
        and the uninterpreted operations corrected where the model needs them"""
        ids = self.e.ids
        s = z3.Solver()
        s.set("timeout", self.e.timeout_ms)
        for t in self.e.path:
            s.add(t)
        s.add(neg)
        n = len(self.e.path)
        for i in range(len(ids)):
            for j in range(i):
                (r, rb), (o, ob) = ids[i], ids[j]
                sk = z3.Int("ex_%d_%d" % (i, j))
                s.add(z3.Or(r == o, core.D.b_diff(rb, ob, sk)))
        m = None
        for _ in range(rounds):
            for t in self.e.path[n:]:
                s.add(t)
            n = len(self.e.path)
            self.e.stats["queries"] += 1
            t0 = time.time()
            r = s.check()
            self.e.stats["solver_s"] += time.time() - t0
            if r != z3.sat:
                return r, m
            m = s.model()
            more = core.D.lemmas(m) + core.D.same_content(m)
            if not more:
                break
            s.add(*more)
        else:
            # keep the operands of the model and give the operations their real results
            for name, ta, tb, r in self.e.uf2_log:
                va, vb = (m.eval(x, model_completion=True) for x in (ta, tb))
                want = core.D.REAL2[name](va.as_long(), vb.as_long()) if va.as_long() >= 0 <= vb.as_long() else None
                s.push()
                s.add(ta == va, tb == vb)
                if want is not None:
                    s.add(r == want)
                if s.check() != z3.sat:
                    s.pop()
                    break
                m = s.model()
        return z3.sat, m

    def fail(self, msg):
        r = self.e._check()
        if r == z3.unsat:
            raise engine.Infeasible()
        if r != z3.sat:
            raise engine.Inconclusive("solver unknown when building a counterexample: " + msg)
        self._refined = None
        m = self.e.solver.model()
        if self.spurious(False):
            raise engine.Infeasible()
        self.record(msg, self.last_model(m))
        raise Failed(msg)

    def record(self, msg, model):
        self.e.stats["checks"] += 1
        self.disagreements += 1
        inputs, tables = self.concretize(model)
        self.violations.append(dict(job=self.job, case=self.case, message=self.readable(msg, model), inputs=inputs,
                                    tables=tables, source=self.readable(self.notes.get("source"), model)))

    def readable(self, text, model):
        if not isinstance(text, str) or not self.e.chars:
            return text
        text = str.__str__(text)
        for k, t in enumerate(self.e.chars):
            text = text.replace(chr(0xE000 + k), chr(model.eval(t, model_completion=True).as_long()))
        return text

    def concretize(self, model):
        inputs = {}
        for k, v in self.e.inputs.items():
            inputs[k] = core.D.concrete(model, v)
        tables = {}
        from .condom import ConD
        for kind, fname, args, r in self.e.uf_log:
            cargs = [core.D.concrete(model, a) for a in args]
            if kind == "B":
                v = core.D.concrete(model, core.D.from_id(r))
                tables[ConD.ckey(fname, cargs)] = "0x" + v.hex()
            else:
                tables[ConD.ckey(fname, cargs)] = str(model.eval(r, model_completion=True).as_long())
        return inputs, tables
