"""Symbolic value domain over z3: uint64 as Int, byte strings as
(length, byte-at closure, identity of an uninterpreted sort)."""
import z3

from . import core, engine
from .core import U64, MAXB, AnyVal
from .engine import SymInt, SymBool, mkint, mkbool, t_of, b_of

Bs = z3.DeclareSort("Bytes")
I = z3.IntSort()
_len = z3.Function("blen", Bs, I)
_at = z3.Function("bat", Bs, I, I)
_byte = z3.Function("byteof", I, I, I)
_or8 = z3.Function("or8", I, I, I)
_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name + "/" + str(len(sorts) - 1) + "/" + "".join(str(s)[0] for s in sorts), *sorts)
    return _UF[k]


def E():
    return engine.ENG


class SB:
    """symbolic byte string"""

    __slots__ = ("len", "at", "_id", "key", "lit", "tag")

    def __init__(self, length, at, key, lit=None, tag=None, id_=None):
        self.len = length
        self.at = at
        self.key = key
        self.lit = lit
        self.tag = tag
        self._id = id_

    def __repr__(self):
        return "SB(%s)" % (self.key if self.lit is None else self.lit,)


class SymD:
    cm = None

    # ---------- helpers ----------
    def bnot(self, x):
        return mkbool(z3.Not(b_of(x)))

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        return mkint(z3.If(b_of(c), t_of(a), t_of(b)))

    def is_bytes(self, v):
        return isinstance(v, (SB, bytes))

    def norm(self, a):
        if isinstance(a, AnyVal):
            return a.face("U")
        return a

    # ---------- opaque results ----------
    def opaque(self, kind, fname, args):
        if kind == "A":
            return AnyVal(fname, list(args))
        e = E()
        args = [self.norm(a) for a in args]
        ck = ("opc", kind, fname) + tuple(
            a if isinstance(a, (str, int)) else ("b", a.key) if isinstance(a, SB) else ("i", a.t.get_id())
            for a in args)
        hit = e.bid.get(ck)
        if hit is not None:
            return hit[0]
        r = self.opaque1(e, kind, fname, args)
        e.bid[ck] = (r, args)
        return r

    def opaque1(self, e, kind, fname, args):
        zargs, sorts, name = [], [], fname
        for a in args:
            if isinstance(a, str):
                name += "|" + a
            elif isinstance(a, SB):
                zargs.append(self.id(a))
                sorts.append(Bs)
            else:
                zargs.append(t_of(a))
                sorts.append(I)
        rs = Bs if kind == "B" else I
        if zargs:
            r = uf("op " + name, *(sorts + [rs]))(*zargs)
        else:
            r = z3.Const("op " + name, rs)
        r = z3.simplify(r)
        k = ("opq", r.get_id())
        if k not in e.bid:
            e.bid[k] = r
            e.uf_log.append((kind, fname, list(args), r))
            if kind == "B":
                e._assert(z3.And(_len(r) >= 0, _len(r) <= MAXB))
            else:
                e._assert(z3.And(r >= 0, r < U64))
        if kind == "B":
            return self.from_id(r)
        return mkint(r)

    def from_id(self, r):
        e = E()
        k = ("fid", r.get_id())
        if k in e.bid:
            return e.bid[k][1]

        def at(i):
            t = _at(r, t_of(i))
            kk = ("rng", t.get_id())
            if kk not in e.bid:
                e.bid[kk] = t
                e._assert(z3.And(t >= 0, t <= 255))
            return mkint(t)

        b = SB(mkint(_len(r)), at, ("id", r.get_id()), id_=r)
        e.bid[k] = (r, b)
        for (o, ob) in e.ids:
            if ob is not None and ob.key[0] != "id":
                e._assert(z3.Or(r == o, self.b_diff(b, ob, z3.Int(e.fresh("ext")))))
        e.ids.append((r, b))
        return b

    def id(self, b):
        """z3 identity (sort Bytes) of a byte string, linked to its length/bytes"""
        if isinstance(b, bytes):
            b = self.b_lit(b)
        if b._id is not None:
            return b._id
        e = E()
        k = ("idof", b.key)
        if k in e.bid:
            b._id = e.bid[k][0]
            return b._id
        r = z3.Const(e.fresh("bid"), Bs)
        b._id = r
        e.bid[k] = (r, b)
        e._assert(_len(r) == t_of(b.len))
        if isinstance(b.len, int) and b.len <= 40:
            for i in range(b.len):
                e._assert(_at(r, z3.IntVal(i)) == t_of(b.at(i)))
        # distinct contents have distinct identities, equal keys share one;
        # relate to every earlier identity extensionally
        for (o, ob) in list(e.ids):
            sk = z3.Int(e.fresh("ext"))
            oth = self.b_diff(b, ob, sk)
            e._assert(z3.Or(r == o, oth))
            if b.lit is not None and ob.lit is not None and b.lit != ob.lit:
                e._assert(r != o)
        e.ids.append((r, b))
        return r

    def b_diff(self, a, b, sk):
        d = z3.Or(t_of(a.len) != t_of(b.len),
                  z3.And(sk >= 0, sk < t_of(a.len), t_of(a.at(mkint(sk))) != t_of(b.at(mkint(sk)))))
        return d

    def cv(self, x):
        """the model's value of x while a model is being read"""
        if self.cm is None or isinstance(x, int):
            return x
        return self.cm.eval(x.t, model_completion=True).as_long()

    # ---------- byte strings ----------
    def b_lit(self, b):
        b = bytes(b)

        def at(i):
            if isinstance(i, int):
                return b[i] if 0 <= i < len(b) else 0
            t = z3.IntVal(0)
            for j in range(len(b) - 1, -1, -1):
                t = z3.If(t_of(i) == j, z3.IntVal(b[j]), t)
            return mkint(z3.simplify(t))

        return SB(len(b), at, ("lit", b), lit=b)

    def b_cells(self, cells):
        """byte string from a list of numbers"""
        cells = list(cells)
        if all(type(x) is int for x in cells):
            return self.b_lit(bytes(cells))

        def at(i):
            if isinstance(i, int):
                return cells[i] if 0 <= i < len(cells) else 0
            t = z3.IntVal(0)
            for j in range(len(cells) - 1, -1, -1):
                t = z3.If(t_of(i) == j, t_of(cells[j]), t)
            return mkint(z3.simplify(t))

        return SB(len(cells), at, ("cells",) + tuple(self.ik(x) for x in cells))

    def b_len(self, b):
        return b.len

    def b_at(self, b, i):
        return b.at(i)

    def ik(self, x):
        if isinstance(x, int):
            return x
        t = z3.simplify(t_of(x))
        E().bid[("keep", t.get_id())] = t
        return ("t", t.get_id())

    def b_concat(self, a, b):
        if a.lit is not None and b.lit is not None:
            return self.b_lit(a.lit + b.lit)
        def at(i):
            la = self.cv(a.len)
            c = i < la
            if c is True:
                return a.at(i)
            if c is False:
                return b.at(i - la)
            return self.ite(c, a.at(i), b.at(i - la))

        return SB(a.len + b.len, at, ("cat", a.key, b.key))

    def b_extract(self, b, s, l):
        if b.lit is not None and isinstance(s, int) and isinstance(l, int):
            return self.b_lit(b.lit[s:s + l])
        if isinstance(s, int) and s == 0 and self._same(l, b.len):
            return b
        return SB(l, lambda i: b.at(i + self.cv(s)), ("ext", b.key, self.ik(s), self.ik(l)))

    def _same(self, a, b):
        if isinstance(a, int) or isinstance(b, int):
            return isinstance(a, int) and isinstance(b, int) and a == b
        return z3.eq(z3.simplify(t_of(a)), z3.simplify(t_of(b)))

    def b_replace(self, b, s, v):
        end = s + v.len

        def at(i):
            st = self.cv(s)
            c = core.and_(st <= i, i < self.cv(end))
            if c is True:
                return v.at(i - st)
            if c is False:
                return b.at(i)
            return self.ite(c, v.at(i - st), b.at(i))

        return SB(b.len, at, ("rep", b.key, self.ik(s), v.key))

    def b_zero(self, n):
        if isinstance(n, int) and n <= 4096:
            return self.b_lit(bytes(n)) if n <= 64 else SB(n, lambda i: 0, ("zero", n))
        return SB(n, lambda i: 0, ("zero", self.ik(n)))

    def b_itob(self, x):
        if isinstance(x, int):
            return self.b_lit(x.to_bytes(8, "big"))
        e = E()
        t = z3.simplify(t_of(x))
        if z3.is_int_value(t):
            return self.b_lit(t.as_long().to_bytes(8, "big"))
        bs = [_byte(t, z3.IntVal(j)) for j in range(8)]
        k = ("itob", t.get_id())

        def link():
            if k in e.bid:
                return
            e.bid[k] = t
            tot = z3.IntVal(0)
            for j in range(8):
                e._assert(z3.And(bs[j] >= 0, bs[j] <= 255))
                tot = tot + bs[j] * z3.IntVal(256 ** (7 - j))
            e._assert(t == tot)

        def at(i):
            if self.cm is not None and k not in e.bid and isinstance(i, int):
                v = self.cm.eval(t, model_completion=True).as_long()
                return (v >> (8 * (7 - i))) & 255 if 0 <= i < 8 else 0
            link()
            if isinstance(i, int):
                return mkint(bs[i]) if 0 <= i < 8 else 0
            r = z3.IntVal(0)
            for j in range(7, -1, -1):
                r = z3.If(t_of(i) == j, bs[j], r)
            return mkint(r)

        e.bid[("keep", t.get_id())] = t
        return SB(8, at, ("itob", t.get_id()), tag=("itob", x))

    def b_btoi(self, b):
        if b.lit is not None:
            return int.from_bytes(b.lit, "big")
        if b.tag and b.tag[0] == "itob":
            return b.tag[1]
        if isinstance(b.len, int):
            v = 0
            for j in range(b.len):
                v = v * 256 + b.at(j)
            return v
        v = z3.IntVal(0)
        for j in range(8):
            v = z3.If(t_of(b.len) > j, v * 256 + t_of(b.at(j)), v)
        return mkint(v)

    def or8(self, x, y):
        tx, ty = t_of(x), t_of(y)
        if z3.is_int_value(tx) and tx.as_long() == 0:
            return y
        if z3.is_int_value(ty) and ty.as_long() == 0:
            return x
        u = _or8(tx, ty)
        k = ("or8", u.get_id())
        e = E()
        if k not in e.bid:
            e.bid[k] = u
            e._assert(z3.And(u >= 0, u <= 255))
            e.uf2_log.append(("bit|", tx, ty, u))
        return mkint(z3.If(tx == 0, ty, z3.If(ty == 0, tx, u)))

    def b_or(self, a, b):
        la, lb = a.len, b.len
        n = self.ite(la >= lb, la, lb)

        def one(x, lx, i):
            pad = self.cv(n - lx)
            c = i < pad
            if c is True:
                return 0
            if c is False:
                return x.at(i - pad)
            return self.ite(c, 0, x.at(i - pad))

        return SB(n, lambda i: self.or8(one(a, la, i), one(b, lb, i)), ("bor", a.key, b.key))

    def b_eq(self, a, b):
        """truth of a == b as a formula usable in both polarities"""
        if a.lit is not None and b.lit is not None:
            return a.lit == b.lit
        if a.key == b.key:
            return True
        if a.tag and b.tag and a.tag[0] == b.tag[0] == "itob":
            return a.tag[1] == b.tag[1]
        return mkbool(self.id(a) == self.id(b))

    def b_goal(self, a, b):
        """a == b as an obligation (a fresh index stands for every index)"""
        if a.lit is not None and b.lit is not None:
            return a.lit == b.lit
        if a.key == b.key:
            return True
        if a.tag and b.tag and a.tag[0] == b.tag[0] == "itob":
            return a.tag[1] == b.tag[1]
        sk = z3.Int(E().fresh("sk"))
        return mkbool(z3.Not(self.b_diff(a, b, sk)))

    # ---------- integers ----------
    def bitlen(self, x):
        if isinstance(x, int):
            return x.bit_length()
        t = z3.IntVal(0)
        for k in range(64):
            t = z3.If(t_of(x) >= 2 ** k, z3.IntVal(k + 1), t)
        return mkint(t)

    def _uf2(self, name, a, b, comm=False):
        ta, tb = z3.simplify(t_of(a)), z3.simplify(t_of(b))
        if comm and ta.get_id() > tb.get_id():
            ta, tb = tb, ta
        e = E()
        r = uf(name, I, I, I)(ta, tb)
        k = ("uf2", r.get_id())
        if k not in e.bid:
            e.bid[k] = r
            e._assert(z3.And(r >= 0, r < U64) if name != "mul" else r >= 0)
            e.uf2_log.append((name, ta, tb, r))
        return mkint(r)

    def mul(self, a, b):
        if isinstance(a, int) or isinstance(b, int):
            return a * b
        r = self._uf2("mul", a, b, comm=True)
        ta, tb, e = t_of(a), t_of(b), E()
        k = ("mulax", r.t.get_id())
        if k not in e.bid:
            e.bid[k] = r
            e._assert(z3.And((r.t == 0) == z3.Or(ta == 0, tb == 0), z3.Implies(tb >= 1, r.t >= ta),
                             z3.Implies(ta >= 1, r.t >= tb), z3.Implies(tb == 1, r.t == ta), z3.Implies(ta == 1, r.t == tb)))
        return r

    def div(self, a, b):
        if isinstance(b, int):
            return a // b
        return self._uf2("div", a, b)

    def mod(self, a, b):
        if isinstance(b, int):
            return a % b
        return self._uf2("mod", a, b)

    def bitop(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return {"&": a & b, "|": a | b, "^": a ^ b}[op]
        return self._uf2("bit" + op, a, b, comm=True)

    # ---------- model refinement ----------
    REAL2 = {"mul": lambda a, b: a * b, "div": lambda a, b: a // b if b else None, "mod": lambda a, b: a % b if b else None,
             "bit&": lambda a, b: a & b, "bit|": lambda a, b: a | b, "bit^": lambda a, b: a ^ b}

    def lemmas(self, m):
        """instances of the real operations that the model contradicts"""
        out = []
        for name, ta, tb, r in E().uf2_log:
            va = m.eval(ta, model_completion=True).as_long()
            vb = m.eval(tb, model_completion=True).as_long()
            if va < 0 or vb < 0:
                continue
            want = self.REAL2[name](va, vb)
            if want is not None and m.eval(r, model_completion=True).as_long() != want:
                out.append(z3.Implies(z3.And(ta == va, tb == vb), r == want))
                if name == "mul":
                    out.append(z3.Implies(tb == vb, r == ta * vb))
                    out.append(z3.Implies(ta == va, r == va * tb))
                if name in ("div", "mod"):
                    # exact for this divisor
                    out.append(z3.Implies(tb == vb, r == (ta / vb if name == "div" else ta % vb)))
        return out

    def same_content(self, m):
        """byte strings the model calls equal although their bytes differ"""
        out, ids = [], E().ids
        for i in range(len(ids)):
            for j in range(i):
                (r, rb), (o, ob) = ids[i], ids[j]
                if rb is None or ob is None or (rb.key[0] == "id" and ob.key[0] == "id"):
                    continue
                if not z3.is_true(m.eval(r == o, model_completion=True)):
                    continue
                x, y = self.concrete(m, rb), self.concrete(m, ob)
                if x != y and len(x) == len(y):
                    ks = [k for k in range(len(x)) if x[k] != y[k]]
                    ks = sorted(set(ks[:300] + list(range(min(300, len(x))))))
                    out.extend(z3.Implies(z3.And(r == o, t_of(rb.len) > k), t_of(rb.at(k)) == t_of(ob.at(k))) for k in ks)
                elif len(x) != len(y):
                    out.append(z3.Implies(r == o, t_of(rb.len) == t_of(ob.len)))
        return out

    # ---------- model evaluation ----------
    def concrete(self, m, v):
        if isinstance(v, (int, str, bytes)) and not isinstance(v, bool):
            return v
        if isinstance(v, bool):
            return v
        if isinstance(v, AnyVal):
            return self.concrete(m, v.face("U"))
        if isinstance(v, SymInt):
            return m.eval(v.t, model_completion=True).as_long()
        if isinstance(v, SymBool):
            return z3.is_true(m.eval(v.t, model_completion=True))
        if isinstance(v, SB):
            if v.lit is not None:
                return v.lit
            n = self.concrete(m, v.len)
            n = max(0, min(n, MAXB))
            out = bytearray()
            self.cm = m     # the model is fixed: values follow from it
            for i in range(n):
                x = v.at(i)
                x = x if isinstance(x, int) else m.eval(x.t, model_completion=True).as_long()
                out.append(x % 256)
            self.cm = None
            return bytes(out)
        raise TypeError(type(v))

    def show(self, v):
        if isinstance(v, AnyVal):
            return "any:" + v.fname
        if isinstance(v, SymInt):
            return str(z3.simplify(v.t))[:120]
        return str(v)[:160]
