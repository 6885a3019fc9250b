"""Symbolic characters inside ordinary source text.

A symbolic character is a private-use placeholder character that stands for a
z3 integer (its code point).  SymStr is a str whose comparisons, searches and
regular-expression matches ask the engine instead of comparing placeholders;
an import hook rewrites the code under test (and the parser library below it)
on the fly so that f-strings, `in`, subscripts of dictionaries, re.* and the
str methods of plain strings keep this meaning.  Nothing is written to disk."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import re
import sys

try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:     # Python < 3.11
    import sre_parse
    import sre_constants as sre

from . import core

BASE = 0xE000
LAST = 0xEFFF
_place = re.compile("[\ue000-\uefff]")

ACTIVE = [False]
MODULES = ("tealish", "arpeggio", "textx", "vlib.avm", "vlib.reflex", "vlib.refparse", "props.c16", "props.c17", "props.c19", "props.c21")


def eng():
    from . import engine
    return engine.ENG


class Unsupported(BaseException):
    """text operation without a symbolic model (not an Exception: code under test must not swallow it)"""


def concrete(x):
    """plain value: every symbolic character is fixed (forks over its domain)"""
    if isinstance(x, str):
        p = str.__str__(x)
        return "".join(fix(c) for c in p) if has(p) else p
    if type(x) in (list, tuple):
        return type(x)(concrete(y) for y in x)
    return x


def has(s):
    return _place.search(s) is not None


def lift(s):
    if type(s) is str and _place.search(s) is not None:
        return SymStr(s)
    return s


def new_char(e, name, domain):
    """a fresh symbolic character; domain: frozenset of code points"""
    import z3
    from .engine import mkint
    k = len(e.chars)
    t = z3.Int("ch_" + name)
    e._assert(range_term(t, domain))
    e.chars.append(t)
    e.cdom.append(domain)
    e.inputs[name] = mkint(t)
    return SymStr(chr(BASE + k))


def ranges(codes):
    out = []
    for c in sorted(codes):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def range_term(t, codes):
    import z3
    alts = [t == a if a == b else z3.And(t >= a, t <= b) for a, b in ranges(codes)]
    return alts[0] if len(alts) == 1 else z3.Or(*alts)


_subset_cache = {}


def test(ch, pred):
    """does character ch satisfy the unary predicate? (forks)"""
    o = builtins.ord(str.__str__(ch))
    if not BASE <= o <= LAST:
        return pred(o)
    e = eng()
    k = o - BASE
    dom = e.cdom[k]
    key = (dom, pred)
    hit = _subset_cache.get(key)
    if hit is None:
        hit = _subset_cache[key] = frozenset(c for c in dom if pred(c))
    if not hit:
        return False
    if len(hit) == len(dom):
        return True
    r = e.branch(range_term(e.chars[k], hit))
    e.cdom[k] = hit if r else dom - hit
    return r


_is = {}


def is_code(c):
    """predicate 'equals c' (one object per c so that caching works)"""
    p = _is.get(c)
    if p is None:
        p = _is[c] = lambda o, c=c: o == c
    return p


_ins = {}


def in_codes(codes):
    p = _ins.get(codes)
    if p is None:
        p = _ins[codes] = lambda o, s=codes: o in s
    return p


def eqc(a, b):
    oa, ob = builtins.ord(a), builtins.ord(b)
    if oa == ob:
        return True
    sa, sb = BASE <= oa <= LAST, BASE <= ob <= LAST
    if not sa and not sb:
        return False
    if not sb:
        return test(a, is_code(ob))
    if not sa:
        return test(b, is_code(oa))
    e = eng()
    da, db = e.cdom[oa - BASE], e.cdom[ob - BASE]
    if not da & db:
        return False
    r = e.branch(e.chars[oa - BASE] == e.chars[ob - BASE])
    if r:
        e.cdom[oa - BASE] = e.cdom[ob - BASE] = da & db
    return r


def raw(s):
    """the underlying plain text"""
    return str.__str__(s)


def eqs(a, b):
    """equality of two strings given as plain text"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if not eqc(x, y):
            return False
    return True


def fold(f):
    table = {}

    def g(o):
        r = table.get(o)
        if r is None:
            r = table[o] = bool(f(chr(o)))
        return r
    return g


P_SPACE = fold(str.isspace)
P_DIGIT = fold(str.isdigit)
P_DECIMAL = fold(str.isdecimal)
P_NUMERIC = fold(str.isnumeric)
P_ALPHA = fold(str.isalpha)
P_ALNUM = fold(str.isalnum)
P_UPPER = fold(str.isupper)
P_LOWER = fold(str.islower)
P_ASCII = fold(str.isascii)
P_ID = fold(lambda c: ("a" + c).isidentifier())
P_PRINT = fold(str.isprintable)


P_NL = in_codes(frozenset([10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029]))


class SymStr(str):
    __slots__ = ()

    def plain(self):
        return str.__str__(self)

    def __str__(self):
        return self

    def __repr__(self):
        return lift(str.__repr__(self.plain()))

    def __format__(self, spec):
        return str.__format__(self.plain(), spec)

    def __hash__(self):
        e = eng()
        if e is not None:
            e.hashed = True
        return str.__hash__(self)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = str.__str__(self), str.__str__(o)
        return str.__eq__(a, b) or eqs(a, b)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        a, b = raw(self), raw(o)
        for x, y in zip(a, b):
            if not eqc(x, y):
                return code(x) < code(y)
        return len(a) < len(b)

    def __gt__(self, o):
        return SymStr(o) < self

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def __contains__(self, o):
        return self.find(o) >= 0

    def __getitem__(self, i):
        return lift(str.__getitem__(self, i))

    def __iter__(self):
        for c in str.__iter__(self):
            yield lift(c)

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lift(self.plain() + raw(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lift(raw(o) + self.plain())

    def __mul__(self, n):
        return lift(self.plain() * n)

    __rmul__ = __mul__

    def __mod__(self, o):
        return lift(self.plain() % o)

    def __rmod__(self, o):
        return lift(raw(o) % (self,))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling symbolic text")

    # searches
    def _at(self, sub, i):
        p = self.plain()
        return i + len(sub) <= len(p) and eqs(p[i:i + len(sub)], sub)

    def _range(self, start, end):
        n = len(self)
        start = 0 if start is None else max(n + start, 0) if start < 0 else start
        end = n if end is None else max(n + end, 0) if end < 0 else min(end, n)
        return start, end

    def startswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[start:end]
        if isinstance(p, tuple):
            return any(S(s)._at(raw(x), 0) for x in p)
        return S(s)._at(raw(p), 0)

    def endswith(self, p, start=None, end=None):
        s = self if start is None and end is None else self[start:end]
        for x in p if isinstance(p, tuple) else (p,):
            if len(x) <= len(s) and S(s)._at(raw(x), len(s) - len(x)):
                return True
        return False

    def find(self, sub, start=None, end=None):
        start, end = self._range(start, end)
        sub = raw(sub)
        for i in range(start, end - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        start, end = self._range(start, end)
        sub = raw(sub)
        for i in range(end - len(sub), start - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        start, end = self._range(start, end)
        n, i = 0, start
        while True:
            i = self.find(sub, i, end)
            if i < 0:
                return n
            n += 1
            i += max(1, len(sub))

    def replace(self, old, new, count=-1):
        old, new = raw(old), raw(new)
        if not old:
            return concrete(self).replace(old, concrete(new), count)
        out, i, p = [], 0, self.plain()
        while i < len(p):
            if count != 0 and self._at(old, i):
                out.append(new)
                i += len(old)
                count -= 1
            else:
                out.append(p[i])
                i += 1
        return lift("".join(out))

    # trimming and splitting
    def _stripset(self, chars):
        if chars is None:
            return P_SPACE
        return in_codes(frozenset(builtins.ord(c) for c in concrete(chars)))

    def strip(self, chars=None):
        return S(self.lstrip(chars)).rstrip(chars)

    def lstrip(self, chars=None):
        p, f, i = self.plain(), self._stripset(chars), 0
        while i < len(p) and test(p[i], f):
            i += 1
        return lift(p[i:])

    def rstrip(self, chars=None):
        p, f = self.plain(), self._stripset(chars)
        i = len(p)
        while i and test(p[i - 1], f):
            i -= 1
        return lift(p[:i])

    def split(self, sep=None, maxsplit=-1):
        p = self.plain()
        out = []
        if sep is None:
            i, n = 0, len(p)
            while True:
                while i < n and test(p[i], P_SPACE):
                    i += 1
                if i >= n:
                    return out
                if maxsplit == 0:
                    j = n
                    while test(p[j - 1], P_SPACE):
                        j -= 1
                    out.append(lift(p[i:j]))
                    return out
                j = i
                while j < n and not test(p[j], P_SPACE):
                    j += 1
                out.append(lift(p[i:j]))
                maxsplit -= 1
                i = j
        i = 0
        while maxsplit != 0:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(lift(p[i:j]))
            i = j + len(sep)
            maxsplit -= 1
        out.append(lift(p[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            if maxsplit < 0:
                return self.split(sep)
            return concrete(self).rsplit(None, maxsplit)
        p, out, end = self.plain(), [], len(self)
        while maxsplit > 0:
            j = self.rfind(sep, 0, end)
            if j < 0:
                break
            out.insert(0, lift(p[j + len(sep):end]))
            end = j
            maxsplit -= 1
        out.insert(0, lift(p[:end]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        p = self.plain()
        if i < 0:
            return self, "", ""
        return lift(p[:i]), lift(p[i:i + len(sep)]), lift(p[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        p = self.plain()
        if i < 0:
            return "", "", self
        return lift(p[:i]), lift(p[i:i + len(sep)]), lift(p[i + len(sep):])

    def splitlines(self, keepends=False):
        p, out, i = self.plain(), [], 0
        while i < len(p):
            j = i
            while j < len(p) and not test(p[j], P_NL):
                j += 1
            if j == len(p):
                out.append(lift(p[i:]))
                break
            e = j + (2 if eqc(p[j], "\r") and j + 1 < len(p) and eqc(p[j + 1], "\n") else 1)
            out.append(lift(p[i:e if keepends else j]))
            i = e
        return out

    def removeprefix(self, x):
        return self[len(x):] if self.startswith(x) else self

    def removesuffix(self, x):
        return self[:len(self) - len(x)] if x and self.endswith(x) else self

    # classes
    def _all(self, f):
        p = self.plain()
        return bool(p) and all(test(c, f) for c in p)

    def isspace(self):
        return self._all(P_SPACE)

    def isdigit(self):
        return self._all(P_DIGIT)

    def isdecimal(self):
        return self._all(P_DECIMAL)

    def isnumeric(self):
        return self._all(P_NUMERIC)

    def isalpha(self):
        return self._all(P_ALPHA)

    def isalnum(self):
        return self._all(P_ALNUM)

    def isascii(self):
        return all(test(c, P_ASCII) for c in self.plain())

    def isprintable(self):
        return all(test(c, P_PRINT) for c in self.plain())

    def isidentifier(self):
        return self._all(P_ID) and not test(self.plain()[0], P_DIGIT)

    def _cased(self, want, other):
        seen = False
        for c in self.plain():
            if test(c, other):
                return False
            seen = test(c, want) or seen
        return seen

    def isupper(self):
        return self._cased(P_UPPER, P_LOWER)

    def islower(self):
        return self._cased(P_LOWER, P_UPPER)

    def _case(self, f, p):
        out = []
        for c in self.plain():
            if BASE <= builtins.ord(c) <= LAST:
                if test(c, p):
                    c = f(fix(c))
            else:
                c = f(c)
            out.append(c)
        return lift("".join(out))

    def upper(self):
        return self._case(str.upper, P_LOWER)

    def lower(self):
        return self._case(str.lower, P_UPPER)

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "") != "utf8":
            return concrete(self).encode(encoding, errors)
        b = SymBytes(utf8(self.plain()))
        b.text = self.plain()
        return b

    # building only: pad by length
    def ljust(self, *a):
        return lift(self.plain().ljust(*a))

    def rjust(self, *a):
        return lift(self.plain().rjust(*a))

    def center(self, *a):
        return lift(self.plain().center(*a))

    def join(self, xs):
        return lift(str.join(self.plain(), list(xs)))

    def format(self, *a, **k):
        return lift(str.format(self.plain(), *a, **k))


def _plainly(name):
    def f(self, *a, **k):
        return getattr(concrete(self), name)(*[concrete(x) for x in a], **{n: concrete(x) for n, x in k.items()})
    return f


for _n in dir(str):
    if not _n.startswith("__") and _n not in vars(SymStr):
        setattr(SymStr, _n, _plainly(_n))


def S(s):
    return s if type(s) is SymStr else SymStr(s)


def code(c):
    """code point of a character: int or SymInt"""
    o = builtins.ord(c)
    if BASE <= o <= LAST:
        from .engine import mkint
        e = eng()
        d = e.cdom[o - BASE]
        if len(d) == 1:
            return next(iter(d))
        return mkint(e.chars[o - BASE])
    return o


def fix(c):
    """concrete character (forks over every value)"""
    o = builtins.ord(c)
    if BASE <= o <= LAST:
        e = eng()
        for v in sorted(e.cdom[o - BASE]):
            if test(c, is_code(v)):
                return chr(v)
        raise Unsupported("character without a value")
    return c


class SymBytes(list):
    """UTF-8 bytes of symbolic text"""


_U1 = fold(lambda c: ord(c) < 0x80)
_U2 = fold(lambda c: ord(c) < 0x800)
_U3 = fold(lambda c: ord(c) < 0x10000)


def utf8(p):
    out = []
    for c in p:
        o = builtins.ord(c)
        if BASE <= o <= LAST:
            if test(c, _U1):
                out.append(code(c))
            else:
                out += list(fix(c).encode("utf-8"))
        else:
            out += list(c.encode("utf-8"))
    return out


# ------------------------------------------------------------ regular expressions

class SymMatch:
    def __init__(self, rx, s, start, end, caps, pos=0):
        self.re, self.string, self.pos, self.endpos = rx, s, pos, len(s)
        self._c = dict(caps)
        self._c[0] = (start, end)

    def _n(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self._c.get(self._n(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _g(self, g, default=None):
        c = self._c.get(self._n(g))
        return default if c is None else lift(raw(self.string)[c[0]:c[1]])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    def __getitem__(self, g):
        return self._g(g)

    def groups(self, default=None):
        return tuple(self._g(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._g(i, default) for k, i in self.re.groupindex.items()}

    def expand(self, t):
        return self.re.template(self, raw(t))

    @property
    def lastindex(self):
        # the group that closed last
        done = [(e, b, -i) for i, (b, e) in self._c.items() if i]
        return -max(done, key=lambda x: (x[0], -x[1], x[2]))[2] if done else None

    @property
    def lastgroup(self):
        return {i: n for n, i in self.re.groupindex.items()}.get(self.lastindex)

    def __bool__(self):
        return True


_CAT = {
    sre.CATEGORY_DIGIT: P_DIGIT, sre.CATEGORY_SPACE: P_SPACE,
    sre.CATEGORY_WORD: fold(lambda c: c.isalnum() or c == "_"),
}
_NCAT = {sre.CATEGORY_NOT_DIGIT: sre.CATEGORY_DIGIT, sre.CATEGORY_NOT_SPACE: sre.CATEGORY_SPACE,
         sre.CATEGORY_NOT_WORD: sre.CATEGORY_WORD}
P_WORD = _CAT[sre.CATEGORY_WORD]


def cat(c, o):
    if c in _CAT:
        return _CAT[c](o)
    return not _CAT[_NCAT[c]](o)


def char_pred(op, av, flags):
    """unary predicate of a one-character node, None for other nodes"""
    ic = flags & re.IGNORECASE

    def low(o):
        return builtins.ord(chr(o).lower()) if ic and len(chr(o).lower()) == 1 else o
    if op is sre.LITERAL:
        return is_code(av) if not ic else (lambda o: low(o) == low(av))
    if op is sre.NOT_LITERAL:
        return lambda o: low(o) != low(av)
    if op is sre.ANY:
        return (lambda o: True) if flags & re.DOTALL else (lambda o: o != 10)
    if op is sre.IN:
        items = list(av)
        neg = bool(items) and items[0][0] is sre.NEGATE
        if neg:
            items = items[1:]

        def one(o):
            for k, v in items:
                if k is sre.LITERAL and o == v or k is sre.RANGE and v[0] <= o <= v[1] or k is sre.CATEGORY and cat(v, o):
                    return True
            return False

        def f(o):
            r = one(o) or bool(ic) and (one(low(o)) or one(builtins.ord(chr(o).upper()[0])))
            return r != neg
        return f
    return None


def with_group(c, g, i, j):
    c = dict(c)
    c[g] = (i, j)
    return c


class Rx:
    """backtracking matcher with the order of Python's re, over symbolic text"""
    cache = {}

    def __init__(self, pattern, flags):
        tree = sre_parse.parse(pattern, flags)
        self.pattern = pattern
        self.flags = flags | tree.state.flags
        self.groups = tree.state.groups - 1
        self.groupindex = dict(tree.state.groupdict)
        self.m = self.seq(list(tree), self.flags)

    @classmethod
    def of(cls, p, flags=0):
        if isinstance(p, re.Pattern):
            p, flags = p.pattern, p.flags & ~re.UNICODE
        if isinstance(p, SymStr):
            p = concrete(p)
        k = (p, int(flags))
        if k not in cls.cache:
            try:
                cls.cache[k] = cls(p, int(flags))
            except Unsupported:
                cls.cache[k] = re.compile(p, int(flags))
        return cls.cache[k]

    # a matcher is f(s, i, caps, k) -> (end, caps) or None
    def seq(self, items, flags):
        ms = [self.node(op, av, flags) for op, av in items]

        def run(s, i, caps, k, n=0):
            if n == len(ms):
                return k(i, caps)
            return ms[n](s, i, caps, lambda j, c: run(s, j, c, k, n + 1))
        if len(ms) == 1:
            return ms[0]
        return run

    def node(self, op, av, flags):
        p = char_pred(op, av, flags)
        if p is not None:
            def one(s, i, caps, k):
                if i < len(s) and test(s[i], p):
                    return k(i + 1, caps)
                return None
            return one
        if op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            hi = None if hi is sre.MAXREPEAT else hi
            greedy = op is sre.MAX_REPEAT
            if len(sub) == 1:
                p = char_pred(sub[0][0], sub[0][1], flags)
                if p is not None:
                    return self.rep1(p, lo, hi, greedy)
            return self.rep(self.seq(sub, flags), lo, hi, greedy)
        if op is sre.SUBPATTERN:
            g, add, dele, sub = av
            m = self.seq(list(sub), (flags | add) & ~dele)
            if g is None:
                return m

            def group(s, i, caps, k):
                return m(s, i, caps, lambda j, c: k(j, with_group(c, g, i, j)))
            return group
        if op is sre.BRANCH:
            alts = [self.seq(list(a), flags) for a in av[1]]

            def branch(s, i, caps, k):
                for a in alts:
                    r = a(s, i, caps, k)
                    if r is not None:
                        return r
                return None
            return branch
        if op is sre.AT:
            ml = bool(flags & re.MULTILINE)

            def at(s, i, caps, k):
                n = len(s)
                if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                    ok = i == 0 or av is sre.AT_BEGINNING and ml and eqc(s[i - 1], "\n")
                elif av is sre.AT_END_STRING:
                    ok = i == n
                elif av is sre.AT_END:
                    ok = i == n or (ml or i == n - 1) and eqc(s[i], "\n")
                elif av in (sre.AT_BOUNDARY, sre.AT_NON_BOUNDARY):
                    a = i > 0 and test(s[i - 1], P_WORD)
                    b = i < n and test(s[i], P_WORD)
                    ok = (a != b) == (av is sre.AT_BOUNDARY)
                else:
                    ok = False
                return k(i, caps) if ok else None
            if av not in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING, sre.AT_END, sre.AT_END_STRING, sre.AT_BOUNDARY,
                          sre.AT_NON_BOUNDARY):
                raise Unsupported("regex position %s" % av)
            return at
        if op in (sre.ASSERT, sre.ASSERT_NOT):
            direction, sub = av
            m = self.seq(list(sub), flags)
            if direction < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported("look-behind")

                def behind(s, i, caps, k):
                    r = None
                    if i >= w[0]:
                        r = m(s, i - w[0], caps, lambda j, c: (j, c))
                    if op is sre.ASSERT:
                        return k(i, r[1]) if r is not None else None
                    return k(i, caps) if r is None else None
                return behind

            def ahead(s, i, caps, k):
                r = m(s, i, caps, lambda j, c: (j, c))
                if op is sre.ASSERT:
                    return k(i, r[1]) if r is not None else None
                return k(i, caps) if r is None else None
            return ahead
        if op is sre.GROUPREF:
            def ref(s, i, caps, k):
                if av not in caps:
                    return None
                a, b = caps[av]
                if i + b - a <= len(s) and eqs(s[a:b], s[i:i + b - a]):
                    return k(i + b - a, caps)
                return None
            return ref
        raise Unsupported("regex %s" % op)

    def rep1(self, p, lo, hi, greedy):
        def f(s, i, caps, k):
            n = len(s)
            if greedy:
                j = i
                while j < n and (hi is None or j - i < hi) and test(s[j], p):
                    j += 1
                while j - i >= lo:
                    r = k(j, caps)
                    if r is not None:
                        return r
                    j -= 1
                return None
            j = i
            while True:
                if j - i >= lo:
                    r = k(j, caps)
                    if r is not None:
                        return r
                if j < n and (hi is None or j - i < hi) and test(s[j], p):
                    j += 1
                else:
                    return None
        return f

    def rep(self, m, lo, hi, greedy):
        def f(s, i, caps, k, n=0):
            def more(j, c):
                if j == i and n >= lo:
                    return None
                return f(s, j, c, k, n + 1)
            if n < lo:
                return m(s, i, caps, more)
            if greedy:
                if hi is None or n < hi:
                    r = m(s, i, caps, more)
                    if r is not None:
                        return r
                return k(i, caps)
            r = k(i, caps)
            if r is None and (hi is None or n < hi):
                r = m(s, i, caps, more)
            return r
        return f

    # entry points
    def at(self, s, i, full=False, advance=False):
        p = raw(s)
        r = self.m(p, i, {}, lambda j, c: (j, c) if (not full or j == len(p)) and not (advance and j == i) else None)
        return None if r is None else SymMatch(self, s, i, r[0], r[1])

    def match(self, s, pos=0):
        return self.at(s, pos)

    def fullmatch(self, s, pos=0):
        return self.at(s, pos, True)

    def search(self, s, pos=0, advance=False):
        for i in range(pos, len(s) + 1):
            m = self.at(s, i, advance=advance and i == pos)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0):
        i, advance = pos, False     # after an empty match the next one must not be empty at the same place
        while True:
            m = self.search(s, i, advance)
            if m is None:
                return
            yield m
            a, i = m.span()
            advance = a == i

    def findall(self, s, pos=0):
        out = []
        for m in self.finditer(s, pos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m._g(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        out, i = [], 0
        p = raw(s)
        for n, m in enumerate(self.finditer(s)):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(lift(p[i:a]))
            out += m.groups()
            i = b
        out.append(lift(p[i:]))
        return out

    def sub(self, repl, s, count=0):
        out, i = [], 0
        p = raw(s)
        for n, m in enumerate(self.finditer(s)):
            if count and n >= count:
                break
            a, b = m.span()
            out.append(p[i:a])
            if callable(repl):
                out.append(raw(repl(m)))
            elif "\\" in raw(repl):
                out.append(raw(self.template(m, raw(repl))))
            else:
                out.append(raw(repl))
            i = b
        out.append(p[i:])
        return lift("".join(out))

    def template(self, m, t):
        def one(x):
            w = x.group(1) or x.group(2)
            if w is None:
                return {"\\\\": "\\", "\\n": "\n", "\\t": "\t"}.get(x.group(), x.group())
            return raw(m._g(int(w) if w.isdigit() else w, ""))
        return re.sub(r"\\(\d+)|\\g<(\w+)>|\\.", lambda x: one(x), t)


RE_FUNCS = {getattr(re, n): n for n in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn")}


def re_func(name, args, kw):
    args = list(args)
    kw = dict(kw)
    pattern = kw.pop("pattern", None) or args.pop(0)
    flags = kw.pop("flags", 0)
    names = {"sub": ["repl", "string", "count", "flags"], "subn": ["repl", "string", "count", "flags"], "split": ["string", "maxsplit", "flags"]}.get(name, ["string", "flags"])
    got = dict(zip(names, args))
    got.update(kw)
    flags |= got.pop("flags", 0)
    return re_method(name, Rx.of(pattern, flags), got)


def re_method(name, rx, got):
    if isinstance(rx, re.Pattern):
        return getattr(rx, name)(**{k: concrete(v) for k, v in got.items()})
    s = S(got.pop("string"))
    if name == "sub":
        return rx.sub(got["repl"], s, got.get("count", 0))
    if name == "subn":
        n = []
        r = rx.sub(lambda m: n.append(m) or (got["repl"](m) if callable(got["repl"]) else m.expand(got["repl"])), s, got.get("count", 0))
        return r, len(n)
    if name == "split":
        return rx.split(s, got.get("maxsplit", 0))
    return getattr(rx, name)(s, got.get("pos", 0))


def pat_method(f, args, kw):
    name = f.__name__
    names = {"sub": ["repl", "string", "count"], "subn": ["repl", "string", "count"], "split": ["string", "maxsplit"]}.get(name, ["string", "pos"])
    got = dict(zip(names, args))
    got.update(kw)
    return re_method(name, Rx.of(f.__self__), got)


def sym_arg(args, kw):
    for a in args:
        if type(a) is SymStr:
            return True
    for a in kw.values():
        if type(a) is SymStr:
            return True
    return False


# ------------------------------------------------------------ run-time helpers of the rewritten code

def to_int(s, base=10):
    """int(text) with symbolic digits"""
    from .engine import mkint
    t = S(s.strip())
    p = raw(t)
    sign = 1
    if p and (eqc(p[0], "-") or eqc(p[0], "+")):
        sign = -1 if eqc(p[0], "-") else 1
        p = p[1:]
    v, last = 0, "_"
    bad = not p
    for c in p:
        if last == "_" and eqc(c, "_"):
            bad = True
            break
        if last != "_" and eqc(c, "_"):
            last = "_"
            continue
        d = digit(c, base)
        if d is None:
            bad = True
            break
        v = v * base + d
        last = "d"
    if bad or last == "_":
        raise ValueError("invalid literal for int() with base %d: %s" % (base, builtins.repr(str.__str__(raw(s)))))
    return v * sign


def fromhex(s):
    out, i = SymBytes(), 0
    while i < len(s):
        if test(raw(s[i]), P_SPACE):
            i += 1
            continue
        d = [digit(raw(c), 16) for c in s[i:i + 2]]
        if len(d) < 2 or None in d:
            raise ValueError("non-hexadecimal number found in fromhex() arg at position %d" % (i + d.index(None) if None in d else i + 1))
        out.append(d[0] * 16 + d[1])
        i += 2
    return out


_DIG = {}


def digit(c, base):
    """value of a digit: int or SymInt, None if c is no digit of the base"""
    for k, (lo, hi, off) in enumerate(((48, 57, 48), (97, 122, 87), (65, 90, 55))):
        top = min(hi, base - 1 + off)
        if top < lo:
            continue
        key = (base, k)
        if key not in _DIG:
            _DIG[key] = lambda o, lo=lo, top=top: lo <= o <= top
        if test(c, _DIG[key]):
            return code(c) - off
    return None


_str_build = {"join", "format", "ljust", "rjust", "center"}
_DICTS = (dict,)
_builtin = type(len)
_method_desc = type(str.join)


def call(f, *a, **k):
    if not ACTIVE[0]:
        return f(*a, **k)
    t = type(f)
    if isinstance(f, _builtin):
        me = f.__self__
        tm = type(me)
        if tm is str:
            n = f.__name__
            if n in _str_build:
                r = f(*a, **k)
                return lift(r)
            if sym_arg(a, k) or (a and type(a[0]) is tuple and sym_arg(a[0], {})):
                return getattr(SymStr(me), n)(*a, **k)
            return f(*a, **k)
        if tm is re.Pattern:
            if sym_arg(a, k):
                return pat_method(f, a, k)
            return f(*a, **k)
        if isinstance(me, (dict, set, frozenset)) and a and (type(a[0]) in (str, SymStr) or f.__name__ == "update"):
            return container_call(me, f, a, k)
        if f is builtins.ord and type(a[0]) is SymStr:
            return code(a[0])
        if f in (builtins.getattr, builtins.hasattr, builtins.setattr) and type(a[1]) is SymStr:
            return f(a[0], attr_name(a[0], a[1]), *a[2:])
        if f == bytes.fromhex and type(a[0]) is SymStr:
            return fromhex(a[0])
        r = f(*a, **k)
        return lift(r) if type(r) is str else r
    if (f is builtins.set or f is builtins.frozenset) and len(a) == 1:
        return f(mkset(list(a[0])))
    if f is builtins.dict and (a or k):
        return dict_display(*([dict(k)] if not a else [a[0] if hasattr(a[0], "keys") else dict_display(*map(tuple, a[0])), k]))
    if t is _function and f.__module__ == "base64":
        return f(*[concrete(x) for x in a], **k)
    if t is _function and f is re.escape and type(a[0]) is SymStr:
        return re.escape(concrete(a[0]))
    if f in RE_FUNCS if t is _function else False:
        if sym_arg(a, k):
            return re_func(RE_FUNCS[f], a, k)
        return f(*a, **k)
    if (f is builtins.int or getattr(f, "__name__", "") == "symint") and a and type(a[0]) is SymStr:
        return to_int(a[0], *(a[1:]), **k)
    if t is _method_desc and a and type(a[0]) is SymStr and f.__objclass__ is str:
        return getattr(a[0], f.__name__)(*a[1:], **k)
    r = f(*a, **k)
    return lift(r) if type(r) is str else r


_function = type(lift)


def attr_name(o, n):
    for x in dir(o):
        if n == x:
            return x
    return n.plain()


def key_of(d, k):
    """the key of d that equals k, k itself if there is none"""
    if type(k) is not SymStr and not (eng() and getattr(eng(), "hashed", False)):
        return k
    if not isinstance(k, str):
        return k
    if type(k) is str and not any(type(x) is SymStr for x in d):
        return k
    for x in list(d):
        if isinstance(x, str) and x == k:
            return x
    return k


def container_call(me, f, a, k):
    n = f.__name__
    if n in ("get", "pop", "setdefault", "add", "discard", "remove", "__contains__", "__getitem__"):
        return f(key_of(me, a[0]), *a[1:], **k)
    if n == "update" and not k and len(a) == 1 and isinstance(me, (dict, set)):
        if isinstance(me, dict):
            for x, v in (a[0].items() if hasattr(a[0], "items") else a[0]):
                me[key_of(me, x)] = v
        else:
            for x in a[0]:
                me.add(key_of(me, x))
        return None
    return f(*a, **k)


def dict_display(*items):
    """{k: v, **d}"""
    r = {}
    for it in items:
        if type(it) is tuple:
            r[key_of(r, it[0])] = it[1]
        else:
            container_call(r, r.update, (it,), {})
    return r


def mkset(items):
    r = set()
    for x in items:
        r.add(key_of(r, x))
    return r


def union(a, b):
    if ACTIVE[0] and type(a) is type(b) and isinstance(a, (dict, set)):
        r = a.copy()
        container_call(r, r.update, (b,), {})
        return r
    return a | b


def contains(b, a):
    if not ACTIVE[0]:
        return a in b
    tb = type(b)
    if tb is str:
        if type(a) is SymStr:
            if len(a) == 1 and b and _place.search(b) is None:
                return test(a.plain(), in_codes(frozenset(map(builtins.ord, b))))
            return SymStr(b).find(a) >= 0
        return a in b
    if isinstance(b, (dict, set, frozenset)) or tb in _VIEWS:
        if isinstance(a, str):
            k = key_of(b, a)
            return k in b
    return a in b


_VIEWS = {type({}.keys())}


def getitem(v, k):
    if type(k) is SymStr or isinstance(k, str):
        if ACTIVE[0] and isinstance(v, dict):
            return v[key_of(v, k)]
    r = v[k]
    return r


def key(v, k):
    if ACTIVE[0] and isinstance(k, str) and isinstance(v, dict):
        return key_of(v, k)
    return k


def fstr(*parts):
    return lift("".join(parts))


def strattr(t, name):
    """str.NAME used as a function"""
    if t is not str or not ACTIVE[0] or name.startswith("__") or name == "maketrans":
        return getattr(t, name)
    return lambda s, *a, **k: call(getattr(s, name), *a, **k)


def mod(a, b):
    r = a % b
    return lift(r) if type(r) is str else r


# ------------------------------------------------------------ rewriting

RISKY = {
    "match", "search", "fullmatch", "findall", "finditer", "split", "rsplit", "sub", "join", "format", "startswith", "endswith",
    "strip", "lstrip", "rstrip", "replace", "find", "rfind", "index", "count", "get", "pop", "setdefault", "add", "remove",
    "discard", "encode", "partition", "rpartition", "ljust", "rjust", "center", "removeprefix", "removesuffix", "upper", "lower",
    "translate", "splitlines", "title", "capitalize", "casefold", "swapcase", "expandtabs", "zfill", "rindex", "subn", "update",
    "isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isidentifier", "isdecimal", "isnumeric", "escape",
    "fromhex", "b32decode", "b64decode",
}
RISKY_NAMES = {"set", "dict", "frozenset", "int", "str", "repr", "ord", "getattr", "setattr", "hasattr", "sorted", "format"}


class Rewriter(ast.NodeTransformer):
    def sx(self, name, args, node, keywords=()):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name(id="sx__", ctx=ast.Load()), attr=name, ctx=ast.Load()),
            args=args, keywords=list(keywords)), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                self.visit_FormattedValue(v)
                parts.append(ast.copy_location(ast.JoinedStr(values=[v]), node))
        return self.sx("fstr", parts, node)

    def visit_FormattedValue(self, node):
        # format specifications keep their own literal parts
        node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in RISKY or isinstance(f, ast.Name) and f.id in RISKY_NAMES:
            if any(isinstance(k.value, ast.Constant) and k.arg is None for k in node.keywords):
                return node
            return self.sx("call", [f] + node.args, node, node.keywords)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self.sx("contains", [node.comparators[0], node.left], node)
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r), node)
            return r
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, (ast.Slice, ast.Tuple)):
            return node
        if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
            return node
        if isinstance(node.ctx, ast.Load):
            return self.sx("getitem", [node.value, node.slice], node)
        if isinstance(node.value, (ast.Name, ast.Attribute)):
            import copy
            v = copy.deepcopy(node.value)
            for x in ast.walk(v):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            node.slice = self.sx("key", [v, node.slice], node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and node.value.id == "str" and isinstance(node.ctx, ast.Load):
            return self.sx("strattr", [node.value, ast.copy_location(ast.Constant(node.attr), node)], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.sx("mod", [node.left, node.right], node)
        if isinstance(node.op, ast.BitOr):
            return self.sx("union", [node.left, node.right], node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.sx("mkset", [ast.copy_location(ast.List(elts=node.elts, ctx=ast.Load()), node)], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.sx("mkset", [ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        lst = ast.copy_location(ast.ListComp(elt=pair, generators=node.generators), node)
        return self.sx("dict_display", [ast.copy_location(ast.Starred(value=lst, ctx=ast.Load()), node)], node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            return self.sx("dict_display", [v if k is None else ast.copy_location(ast.Tuple(elts=[k, v], ctx=ast.Load()), node) for k, v in zip(node.keys, node.values)], node)
        return node

    # annotations stay as they are
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(x) for x in node.body]
        node.args.defaults = [self.visit(x) for x in node.args.defaults]
        node.args.kw_defaults = [x and self.visit(x) for x in node.args.kw_defaults]
        node.decorator_list = [self.visit(x) for x in node.decorator_list]
        return node


def transform(source, path):
    tree = ast.parse(source, path)
    tree = Rewriter().visit(tree)
    # sx__ arrives through the module's globals (see Loader)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            import tokenize
            import io
            data = f.read()
        enc = tokenize.detect_encoding(io.BytesIO(data).readline)[0]
        return transform(data.decode(enc), path)

    def exec_module(self, module):
        module.__dict__["sx__"] = sys.modules[__name__]
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self):
        self.busy = False

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in MODULES and fullname not in MODULES:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


TEXT_PROPS = {"C16", "C17", "C19", "C21"}


def install():
    sys.meta_path.insert(0, Finder())
    ACTIVE[0] = True
