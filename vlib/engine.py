"""Path-exploring symbolic executor (solver side).

The code under test is ordinary Python.  Values that are symbolic are SymInt /
SymBool proxies around z3 terms; whenever Python needs a truth value the
engine asks z3 which outcomes are feasible under the current path condition
and explores all of them by re-execution (depth first, with the common prefix
of the solver stack kept).
"""
import operator
import sys
import time

import z3

from . import core

U64 = 2 ** 64


class Cut(BaseException):
    """the path left the stated bounds"""


class Infeasible(BaseException):
    """the current path condition is unsatisfiable"""


class StopJob(BaseException):
    pass


class Inconclusive(Exception):
    pass


ENG = None  # current engine


def engine():
    return ENG


def t_of(x):
    """z3 term of an int-like value"""
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    raise TypeError(type(x))


def b_of(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise TypeError(type(x))


def mkint(t):
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkbool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


class SymBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, b_of(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, b_of(o)))

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return mkbool(self.t == b_of(o))
        if isinstance(o, (int, SymInt)):
            return int(bool(self)) == o
        return NotImplemented

    def __hash__(self):
        return 11

    def __repr__(self):
        return "SymBool(%s)" % self.t

    # a truth value used as a number or text: the two cases are separate paths
    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _as_number(name):
    def f(self, *a):
        return getattr(operator, name)(int(bool(self)), *a)

    def r(self, o):
        return getattr(operator, name)(o, int(bool(self)))
    return f, r


for _n in ("add", "sub", "mul", "floordiv", "mod", "pow", "lt", "le", "gt", "ge", "lshift", "rshift", "xor"):
    _f, _r = _as_number(_n)
    setattr(SymBool, "__%s__" % _n, _f)
    if _n not in ("lt", "le", "gt", "ge"):
        setattr(SymBool, "__r%s__" % _n, _r)
for _n in ("neg", "pos", "abs", "invert"):
    setattr(SymBool, "__%s__" % _n, _as_number(_n)[0])


def _num(o):
    return isinstance(o, (int, SymInt, SymBool))


_bit_length = {}


class SymInt:
    """mathematical integer; never a Python int, so nothing concretises it silently"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    # arithmetic
    def __add__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(z3.simplify(self.t + t_of(o)))

    __radd__ = __add__

    def __sub__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(z3.simplify(self.t - t_of(o)))

    def __rsub__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(z3.simplify(t_of(o) - self.t))

    def __mul__(self, o):
        if not _num(o):
            return NotImplemented
        return mkint(z3.simplify(self.t * t_of(o)))

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(z3.simplify(-self.t))

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(z3.simplify(self.t / z3.IntVal(o)))
        if isinstance(o, SymInt):
            if o > 0:
                return mkint(self.t / o.t)
            if o == 0:
                raise ZeroDivisionError
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(z3.simplify(self.t % z3.IntVal(o)))
        if isinstance(o, SymInt):
            if o > 0:
                return mkint(self.t % o.t)
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return mkint(t_of(o)) // self if isinstance(o, SymInt) else o // int(self)

    def __rmod__(self, o):
        return o % int(self) if isinstance(o, int) else NotImplemented

    def __rdivmod__(self, o):
        return divmod(o, int(self))

    def __pos__(self):
        return self

    def __invert__(self):
        return -self - 1

    def _bits(self, o):
        """self & o for a number o"""
        o = int(o)
        if o < 0:
            return self - self._bits(~o)
        r = 0
        k = 0
        while o >> k:
            n = 0
            while (o >> (k + n)) & 1:
                n += 1
            if n:
                # a run of n ones from bit k
                r = (self // 2 ** k) % 2 ** n * 2 ** k + r
                k += n
            else:
                k += 1
        return r

    def __and__(self, o):
        return self._bits(o) if _num(o) else NotImplemented

    def __or__(self, o):
        return self + o - self._bits(o) if _num(o) else NotImplemented

    def __xor__(self, o):
        return self + o - 2 * self._bits(o) if _num(o) else NotImplemented

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __rlshift__(self, o):
        return o * 2 ** int(self)

    def __rrshift__(self, o):
        return o // 2 ** int(self)

    def __pow__(self, o):
        return int(self) ** int(o)

    def __rpow__(self, b):
        return b ** int(self)

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rshift__(self, o):
        return self // (2 ** int(o))

    # comparison
    def __eq__(self, o):
        if not _num(o):
            return False
        return mkbool(z3.simplify(self.t == t_of(o)))

    def __ne__(self, o):
        if not _num(o):
            return True
        return mkbool(z3.simplify(self.t != t_of(o)))

    def __lt__(self, o):
        if not _num(o):
            return NotImplemented
        return mkbool(z3.simplify(self.t < t_of(o)))

    def __le__(self, o):
        if not _num(o):
            return NotImplemented
        return mkbool(z3.simplify(self.t <= t_of(o)))

    def __gt__(self, o):
        if not _num(o):
            return NotImplemented
        return mkbool(z3.simplify(self.t > t_of(o)))

    def __ge__(self, o):
        if not _num(o):
            return NotImplemented
        return mkbool(z3.simplify(self.t >= t_of(o)))

    def __hash__(self):
        return 7

    def __bool__(self):
        return ENG.branch(self.t != 0)

    # concretisation: forks over every feasible value (bounded)
    def __index__(self):
        return ENG.concretize(self.t)

    __int__ = __index__

    def __abs__(self):
        return -self if self < 0 else self

    def bit_length(self):
        # exact for 0 .. 2**80
        hit = _bit_length.get(self.t.get_id())
        if hit is None:
            t = z3.IntVal(0)
            for k in range(0, 80):
                t = z3.If(self.t >= 2 ** k, z3.IntVal(k + 1), t)
            if len(_bit_length) > 5000:
                _bit_length.clear()
            hit = _bit_length[self.t.get_id()] = (t, self.t)    # keeps the term, and with it its id, alive
        return mkint(hit[0])

    def __str__(self):
        return ENG.magic_of(self)

    def __format__(self, spec):
        if spec in ("", "d", "s"):
            return ENG.magic_of(self)
        return format(int(self), spec)

    def __repr__(self):
        return ENG.magic_of(self)


MAGIC_BASE = 4242420000000
MAGIC_STEP = 100003


class Engine:
    def __init__(self, timeout_ms=20000, max_paths=None, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.decisions = []   # list of [choice, remaining alternatives, kept_asserts]
        self.stats = dict(paths=0, queries=0, solver_s=0.0, unknown=0, cut=0,
                          checks=0, discharged=0, branches=0)
        self.max_paths = max_paths
        self.deadline = deadline
        self.reset_path()
        self.kept = 0

    # ---- path bookkeeping ----
    def reset_path(self):
        self.pos = 0
        self.nassert = 0
        self.path = []          # (term) all assertions on this path
        self.decided = {}
        self.names = {}
        self.magic = {}         # text -> term
        self.magic_rev = {}     # term id -> text
        self.magic_keep = []
        self.uf_log = []        # opaque applications, for replay tables
        self.uf_seen = set()
        self.inputs = {}        # name -> value (choices, ints)
        self.bid = {}
        self.ids = []
        self.chars = []         # symbolic characters: z3 code points
        self.cdom = []          # values each may still have
        self.hashed = False     # symbolic text was used as a key
        self.uf2_log = []       # uninterpreted div/mod/bit operations: (name, a, b, result)

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return "%s!%d" % (base, n)

    def _assert(self, t):
        i = self.nassert
        self.nassert += 1
        self.path.append(t)
        if i >= self.kept:
            self.solver.add(t)
            self.kept = self.nassert

    def _check(self, *extra):
        self.stats["queries"] += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t0
        return r

    def assume(self, c):
        """restrict the path; must come before the code it constrains"""
        if c is True:
            return
        if c is False:
            raise Infeasible()
        self._assert(b_of(c))

    def assume_checked(self, c):
        self.assume(c)
        if self._check() == z3.unsat:
            raise Infeasible()

    def _decide(self, n, feas, terms):
        """pick one of n alternatives; feas(i) asks the solver"""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if d[2] is not None:
                # a real fork: solver level exists already
                self.nlevel += 1
                self._assert(terms[d[0]])
            else:
                self._assert(terms[d[0]])
            return d[0]
        self.stats["branches"] += 1
        if self.deadline and self.stats["branches"] % 64 == 0 and time.time() > self.deadline:
            raise Inconclusive("job deadline exceeded")
        ok = [i for i in range(n) if feas(i)]
        if not ok:
            raise Infeasible()
        if len(ok) == 1:
            self.decisions.append([ok[0], [], None])
            self.pos += 1
            self._assert(terms[ok[0]])
            return ok[0]
        self.decisions.append([ok[0], ok[1:], self.nassert])
        self.pos += 1
        self.solver.push()
        self._assert(terms[ok[0]])
        return ok[0]

    nlevel = 0

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.decided:
            return self.decided[k][0]
        nc = z3.Not(c)

        def feas(i):
            r = self._check(c if i == 0 else nc)
            if r == z3.unknown:
                self.stats["unknown"] += 1
                return True
            return r == z3.sat

        r = self._decide(2, feas, [c, nc]) == 0
        self.decided[k] = (r, c)
        return r

    def choose(self, n, name):
        """structure selector: a solver variable in 0..n-1"""
        if n == 1:
            self.inputs[name] = 0
            return 0
        v = z3.Int("sel_" + name)
        terms = [v == i for i in range(n)]
        i = self._decide(n, lambda i: True, terms)
        self.inputs[name] = i
        return i

    def concretize(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(300):
            if self.pos < len(self.decisions):
                # replay: the recorded branch conditions reproduce the values
                hint = self.decisions[self.pos]
                v = hint[3] if len(hint) > 3 else None
            else:
                v = None
            if v is None:
                r = self._check()
                if r != z3.sat:
                    raise Infeasible()
                v = self.solver.model().eval(t, model_completion=True).as_long()
            p = self.pos
            c = t == v
            nc = t != v
            terms = [c, nc]

            def feas(i):
                if i == 0:
                    return True
                return self._check(nc) != z3.unsat

            r = self._decide(2, feas, terms)
            d = self.decisions[p]
            if len(d) == 3:
                d.append(v)
            if r == 0:
                return v
        raise Inconclusive("concretisation bound exceeded for %s" % t)

    def sym_int(self, name, lo, hi):
        v = z3.Int("in_" + name)
        self._assert(z3.And(v >= lo, v <= hi))
        s = SymInt(v)
        self.inputs[name] = s
        return s

    # ---- magic numbers: symbolic integers inside source text ----
    def magic_of(self, s):
        t = z3.simplify(s.t)
        if z3.is_int_value(t):
            return str(t.as_long())
        k = t.get_id()
        if k in self.magic_rev:
            return self.magic_rev[k]
        text = str(MAGIC_BASE + MAGIC_STEP * (len(self.magic) + 1))
        self.magic[text] = t
        self.magic_rev[k] = text
        self.magic_keep.append(t)
        return text

    def magic_lookup(self, tok):
        t = self.magic.get(tok)
        return None if t is None else mkint(t)

    # ---- obligations ----
    def valid(self, c):
        """is c implied by the path condition?  -> (verdict, model)"""
        if c is True:
            return True, None
        neg = z3.Not(b_of(c)) if c is not False else z3.BoolVal(True)
        r = self._check(neg)
        if r == z3.unsat:
            return True, None
        if r == z3.unknown:
            self.stats["unknown"] += 1
            raise Inconclusive("solver returned unknown for an obligation")
        return False, self.solver.model()

    # ---- driver ----
    def explore(self, fn):
        """run fn on every feasible path"""
        global ENG
        ENG = self
        core.set_backend(self)
        while True:
            self.reset_path()
            try:
                fn()
            except Infeasible:
                pass
            except Cut:
                self.stats["cut"] += 1
            self.stats["paths"] += 1
            if self.max_paths and self.stats["paths"] >= self.max_paths:
                raise Inconclusive("path bound %d exceeded" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("job deadline exceeded")
            # backtrack
            while self.decisions and not self.decisions[-1][1]:
                d = self.decisions.pop()
                if d[2] is not None:
                    self.solver.pop()
            if not self.decisions:
                return
            d = self.decisions[-1]
            d[0] = d[1].pop(0)
            self.solver.pop()
            self.kept = d[2]
            self.solver.push()
