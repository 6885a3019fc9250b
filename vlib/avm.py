"""AVM model: opcode semantics (shared by the TEAL interpreter and by the
reference semantics of the source language), assembler checks, interpreter."""
import json
import os

from . import core
from .core import U64, MAXB, AnyVal, Panic, AsmError, IllTyped, and_, or_, not_

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = {o["Name"]: o for o in json.load(
    open(os.path.join(HERE, "..", "oracle", "langspec.json")))["Ops"]}

NAMED_INTS = {
    "NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4,
    "DeleteApplication": 5, "unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3,
    "axfer": 4, "afrz": 5, "appl": 6,
    # Tealish enums (documented spelling of the same values)
    "Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6,
}

TXN_TYPES = dict(zip(SPEC["txn"]["ArgEnum"], SPEC["txn"]["ArgEnumTypes"]))
GLOBAL_TYPES = dict(zip(SPEC["global"]["ArgEnum"], SPEC["global"]["ArgEnumTypes"]))
ARRAY_FIELDS = set(SPEC["txna"]["ArgEnum"])

STATEFUL = {n for n, o in SPEC.items()
            if set(o["Groups"]) & {"State Access", "Box Access", "Inner Transactions"}}
EFFECTS = {"log", "app_local_put", "app_global_put", "app_local_del", "app_global_del",
           "itxn_begin", "itxn_field", "itxn_next", "itxn_submit"}


class World:
    def __init__(self):
        self.events = []
        self.ver = 0
        self.iver = 0
        self.boxes = []       # writes (key, exists, content)
        self.line = None

    def emit(self, kind, imms, args):
        self.events.append((kind, tuple(imms), list(args), self.line))
        self.ver += 1
        if kind == "itxn_submit":
            self.iver += 1

    # boxes
    def box(self, key):
        for (k, ex, c) in reversed(self.boxes):
            if core.D.b_eq(k, key):
                return ex, c
        ex = core.D.opaque("U", "box_exists0", [key])
        return (ex % 2) == 1, core.D.opaque("B", "box_bytes0", [key])

    def box_set(self, key, ex, c):
        self.boxes.append((key, ex, c))
        self.ver += 1


def U(v):
    if isinstance(v, AnyVal):
        return v.face("U")
    if core.D.is_bytes(v):
        raise IllTyped("uint64 expected, bytes found")
    return v


def B(v):
    if isinstance(v, AnyVal):
        return v.face("B")
    if not core.D.is_bytes(v):
        raise IllTyped("bytes expected, uint64 found")
    return v


def u64(x):
    """result of an arithmetic op: fails outside 0..2**64-1"""
    if or_(x < 0, x >= U64):
        raise Panic("overflow")
    return x


def b01(c):
    if isinstance(c, bool):
        return 1 if c else 0
    return core.D.ite(c, 1, 0)


def same(a, b):
    """AVM == on two values of one kind"""
    D = core.D
    if isinstance(a, AnyVal) and isinstance(b, AnyVal):
        return U(a) == U(b)
    if isinstance(a, AnyVal):
        a = B(a) if D.is_bytes(b) else U(a)
    if isinstance(b, AnyVal):
        b = B(b) if D.is_bytes(a) else U(b)
    if D.is_bytes(a) != D.is_bytes(b):
        raise IllTyped("== on different kinds")
    if D.is_bytes(a):
        return D.b_eq(a, b)
    return a == b


def chk(c, why):
    """continue only when c holds; otherwise the AVM program fails"""
    if not c:
        raise Panic(why)


def txn_field(field, gi, ai=None):
    ty = TXN_TYPES[field]
    args = [gi] if ai is None else [gi, ai]
    return core.D.opaque(ty, "txnfield|" + field, args)


def group_index():
    return core.D.opaque("U", "txn GroupIndex", [])


def global_field(field):
    return core.D.opaque(GLOBAL_TYPES[field], "global|" + field, [])


def itxn_field_val(w, field, ai=None):
    ty = TXN_TYPES[field]
    return core.D.opaque(ty, "itxn|" + field, [w.iver] if ai is None else [w.iver, ai])


def prim(w, name, imms, args):
    """semantics of one opcode; args/results in stack order (deepest first)"""
    D = core.D
    if name in ("+", "-", "*"):
        a, b = U(args[0]), U(args[1])
        if name == "*":
            return [u64(D.mul(a, b))]
        return [u64(a + b if name == "+" else a - b)]
    if name in ("/", "%"):
        a, b = U(args[0]), U(args[1])
        chk(b != 0, "division by zero")
        return [D.div(a, b) if name == "/" else D.mod(a, b)]
    if name in ("<", ">", "<=", ">="):
        a, b = U(args[0]), U(args[1])
        return [b01({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[name])]
    if name == "==":
        return [b01(same(args[0], args[1]))]
    if name == "!=":
        return [b01(not_(same(args[0], args[1])))]
    if name == "&&":
        return [b01(and_(U(args[0]) != 0, U(args[1]) != 0))]
    if name == "||":
        return [b01(or_(U(args[0]) != 0, U(args[1]) != 0))]
    if name == "!":
        return [b01(U(args[0]) == 0)]
    if name == "~":
        return [(U64 - 1) - U(args[0])]
    if name in ("|", "&", "^"):
        return [D.bitop(name, U(args[0]), U(args[1]))]
    if name == "len":
        return [D.b_len(B(args[0]))]
    if name == "itob":
        return [D.b_itob(U(args[0]))]
    if name == "btoi":
        b = B(args[0])
        chk(D.b_len(b) <= 8, "btoi length")
        return [D.b_btoi(b)]
    if name == "bitlen":
        v = args[0]
        if isinstance(v, AnyVal):
            v = U(v)
        if D.is_bytes(v):
            return [D.opaque("U", "bitlen", [v])]
        return [D.bitlen(v)]
    if name == "concat":
        a, b = B(args[0]), B(args[1])
        chk(D.b_len(a) + D.b_len(b) <= MAXB, "concat length")
        return [D.b_concat(a, b)]
    if name == "bzero":
        n = U(args[0])
        chk(n <= MAXB, "bzero length")
        return [D.b_zero(n)]
    if name in ("extract", "extract3", "substring", "substring3"):
        b = B(args[0])
        if name in ("extract", "substring"):
            s, l = imms
        else:
            s, l = U(args[1]), U(args[2])
        n = D.b_len(b)
        if name.startswith("substring"):
            chk(s <= l, "substring order")
            l = l - s
        elif name == "extract":
            if l == 0:
                chk(s <= n, "extract start")
                l = n - s
        chk(s + l <= n, "extract range")
        return [D.b_extract(b, s, l)]
    if name in ("replace2", "replace3"):
        b = B(args[0])
        if name == "replace2":
            s, v = imms[0], B(args[1])
        else:
            s, v = U(args[1]), B(args[2])
        chk(s + D.b_len(v) <= D.b_len(b), "replace range")
        return [D.b_replace(b, s, v)]
    if name == "b|":
        return [D.b_or(B(args[0]), B(args[1]))]
    if name == "select":
        return [args[1] if U(args[2]) != 0 else args[0]]
    # ---- fields ----
    if name == "txn" and len(imms) == 1:
        if imms[0] == "GroupIndex":
            return [group_index()]
        return [txn_field(imms[0], group_index())]
    if name in ("txna", "txn"):
        return [txn_field(imms[0], group_index(), imms[1])]
    if name == "txnas":
        return [txn_field(imms[0], group_index(), U(args[0]))]
    if name == "gtxn" and len(imms) == 2:
        return [txn_field(imms[1], imms[0])]
    if name in ("gtxna", "gtxn"):
        return [txn_field(imms[1], imms[0], imms[2])]
    if name == "gtxnas":
        return [txn_field(imms[1], imms[0], U(args[0]))]
    if name == "gtxns" and len(imms) == 1:
        return [txn_field(imms[0], U(args[0]))]
    if name in ("gtxnsa", "gtxns"):
        return [txn_field(imms[0], U(args[0]), imms[1])]
    if name == "gtxnsas":
        return [txn_field(imms[0], U(args[0]), U(args[1]))]
    if name == "global":
        return [global_field(imms[0])]
    if name == "itxn" and len(imms) == 1:
        return [itxn_field_val(w, imms[0])]
    if name in ("itxna", "itxn"):
        return [itxn_field_val(w, imms[0], imms[1])]
    if name == "itxnas":
        return [itxn_field_val(w, imms[0], U(args[0]))]
    # ---- boxes ----
    if name.startswith("box_"):
        key = B(args[0])
        ex, c = w.box(key)
        if name == "box_create":
            n = U(args[1])
            if ex:
                chk(D.b_len(c) == n, "box exists with another size")
                return [0]
            chk(n <= MAXB, "box size (model bound)")
            w.box_set(key, True, D.b_zero(n))
            return [1]
        if name == "box_put":
            v = B(args[1])
            if ex:
                chk(D.b_len(c) == D.b_len(v), "box_put size")
            w.box_set(key, True, v)
            return []
        if name == "box_del":
            r = bool(ex)
            if r:
                w.box_set(key, False, D.b_lit(b""))
            return [1 if r else 0]
        if name == "box_len":
            if ex:
                return [D.b_len(c), 1]
            return [0, 0]
        if name == "box_get":
            if ex:
                return [c, 1]
            return [D.b_lit(b""), 0]
        chk(ex, "no such box")
        s = U(args[1])
        if name == "box_extract":
            l = U(args[2])
            chk(s + l <= D.b_len(c), "box_extract range")
            return [D.b_extract(c, s, l)]
        if name == "box_replace":
            v = B(args[2])
            chk(s + D.b_len(v) <= D.b_len(c), "box_replace range")
            w.box_set(key, True, D.b_replace(c, s, v))
            return []
    # ---- effects and everything else, by signature ----
    o = SPEC[name]
    sig = o.get("Args", "")
    vals = []
    for ch, a in zip(sig, args):
        vals.append(U(a) if ch == "U" else B(a) if ch == "B" else a)
    if len(sig) != len(args):
        raise IllTyped("%s takes %d operands" % (name, len(sig)))
    if name in EFFECTS:
        w.emit(name, imms, vals)
        return []
    fargs = [str(i) for i in imms] if all(isinstance(i, str) for i in imms) else list(imms)
    fargs += vals
    if name in STATEFUL:
        fargs.append(w.ver)
    out = []
    for k, ch in enumerate(o.get("Returns", "")):
        kind = {"U": "U", "B": "B", ".": "A"}[ch]
        out.append(D.opaque(kind, "%s#%d" % (name, k), fargs))
    return out


# ---------------------------------------------------------------- assembler

class Instr:
    __slots__ = ("op", "imms", "line", "depth")

    def __init__(self, op, imms, line):
        self.op = op
        self.imms = imms
        self.line = line

    def __repr__(self):
        return "%s %s" % (self.op, self.imms)


def tokens_of_line(line):
    return scan(line)[0]


def scan(line):
    """(statements, has a comment): fields of one TEAL line: whitespace separated, ';' separates statements,
    '//' starts a comment, both only outside string literals"""
    out, cur, i, n = [], [], 0, len(line)
    comment = False
    while i < n:
        c = line[i]
        if c in " \t\r\n\x0b\x0c\xa0":
            i += 1
        elif c == "/" and line[i:i + 2] == "//":
            comment = True
            break
        elif c == ";":
            out.append(cur)
            cur = []
            i += 1
        elif c == '"':
            j = i + 1
            while j < n and line[j] != '"':
                j += 2 if line[j] == "\\" else 1
            if j >= n:
                raise AsmError("unterminated string literal: %r" % line)
            cur.append(line[i:j + 1])
            i = j + 1
            if i < n and line[i] not in " \t;/":
                raise AsmError("text follows a string literal: %r" % line)
        else:
            j = i
            base64 = bool(cur) and cur[-1] in ("base64", "b64")     # a // in base64 data is data
            while j < n and line[j] not in " \t;":
                if line[j] == "/" and line[j:j + 2] == "//" and not base64:
                    break
                if line[j] == "(" and line[i:j] in ("base64", "b64") and ")" in line[j:]:
                    j = line.index(")", j)
                j += 1
            cur.append(line[i:j])
            i = j
    out.append(cur)
    return [f for f in out if f], comment


def string_cells(tok):
    """bytes of a TEAL string literal (numbers, symbolic where its characters are)"""
    body = tok[1:-1]
    out = []
    i = 0
    while i < len(body):
        c = body[i]
        if c == '"':
            raise AsmError("quote inside a string literal: %s" % tok)
        if c == "\\":
            if i + 1 >= len(body):
                raise AsmError("bad escape in %s" % tok)
            d = body[i + 1]
            if d in 'ntr\\"':
                out.append({"n": 10, "t": 9, "r": 13, "\\": 92, '"': 34}[d])
                i += 2
            elif d == "x":
                h = body[i + 2:i + 4]
                if len(h) != 2 or any(x not in "0123456789abcdefABCDEF" for x in h):
                    raise AsmError("bad hex escape in %s" % tok)
                out.append(int(h, 16))
                i += 4
            else:
                raise AsmError("unknown escape in %s" % tok)
        else:
            out += list(c.encode("utf-8"))
            i += 1
    return out


def string_literal(tok):
    return core.D.b_cells(string_cells(tok))


def address_bytes(tok):
    import base64
    import hashlib
    try:
        raw = base64.b32decode(tok + "=" * (-len(tok) % 8))
    except Exception:
        raise AsmError("bad address %s" % tok)
    if len(raw) != 36 or len(tok) != 58 or hashlib.new("sha512_256", raw[:32]).digest()[-4:] != raw[32:]:
        raise AsmError("bad address %s" % tok)
    return raw[:32]


ENCODINGS = ("base64", "b64", "base32", "b32")
BRANCH = {"b", "bz", "bnz", "callsub"}
MULTI = {"switch", "match"}
U8_IMMS = {  # op -> number of uint8 immediates
    "load": 1, "store": 1, "extract": 2, "substring": 2, "replace2": 1, "dig": 1,
    "cover": 1, "uncover": 1, "bury": 1, "popn": 1, "dupn": 1, "gload": 2, "gloads": 1,
    "gaid": 1, "arg": 1, "proto": 2, "intc": 1, "bytec": 1,
}


def num(tok, what="number"):
    m = core.BACK.magic_lookup(tok) if core.BACK is not None else None
    if m is not None:
        return m
    # Go's strconv.ParseUint(tok, 0, 64)
    t = tok.lower()
    base = 10
    if t.startswith("0") and len(t) > 1:
        base = 8
        if t[1] in "xob":
            base = 16 if t[1] == "x" else 8 if t[1] == "o" else 2
            t = t[2:]
        else:
            t = t[1:]
    if t.isascii() and not t.startswith("_") and all(c in "0123456789abcdef_"[:base] + "_" for c in t):
        try:
            return int(t, base)
        except ValueError:
            pass
    raise AsmError("%s expected, found %r" % (what, tok))


class Program:
    def __init__(self, lines):
        self.ins = []
        self.labels = {}
        self.refs = []
        defines = {}
        label_lines = {}
        for ln, raw in enumerate(lines, 1):
            if "\n" in raw:
                raise AsmError("line break inside an output line")
            s = raw.strip()
            if s.startswith("#"):
                p = tokens_of_line(s)
                p = p[0] if p else []
                if p[:1] == ["#pragma"]:
                    if len(p) < 3 or p[1] != "version":
                        raise AsmError("bad pragma %r" % raw)
                    if self.ins:
                        raise AsmError("#pragma after code")
                    num(p[2])
                    continue
                if p[:1] == ["#define"]:
                    if len(p) < 2:
                        raise AsmError("bad define %r" % raw)
                    if p[1] in SPEC or p[1] in ("int", "byte", "addr", "method"):
                        raise AsmError("#define of an opcode %r" % raw)
                    if p[1] in label_lines:
                        raise AsmError("#define of a label name")
                    defines[p[1]] = [defines_sub for t in p[2:] for defines_sub in defines.get(t, [t])]
                    continue
                raise AsmError("unknown directive %r" % raw)
            for f in tokens_of_line(raw):
                f = [x for t in f for x in defines.get(t, [t])]
                if f and f[0].endswith(":") and not f[0].startswith('"'):
                    name = f[0][:-1]
                    self.check_label(name)
                    if name in self.labels:
                        raise AsmError("duplicate label %r" % name)
                    if name in defines:
                        raise AsmError("label %r is also a macro" % name)
                    self.labels[name] = len(self.ins)
                    label_lines[name] = ln
                    f = f[1:]
                if f:
                    self.ins.append(self.instr(f, ln))
        for name, ln in self.refs:
            if name not in self.labels:
                raise AsmError("reference to undefined label %r (line %d)" % (name, ln))
        self.nlines = len(lines)

    def check_label(self, name):
        if not name or any(c in " \t;\"" for c in name):
            raise AsmError("bad label %r" % name)

    def u8(self, v, f):
        if or_(v < 0, v > 255):
            raise AsmError("immediate out of range 0..255: %s" % " ".join(f))
        return v

    def instr(self, f, ln):
        op, a = f[0], f[1:]

        def need(n):
            if len(a) != n:
                raise AsmError("%s takes %d immediates: %r" % (op, n, f))

        if op in ("pushint", "int"):
            need(1)
            if a[0] in NAMED_INTS:
                v = NAMED_INTS[a[0]]
            else:
                v = num(a[0])
            if or_(v < 0, v >= U64):
                raise AsmError("integer out of range: %r" % f)
            return Instr("push", [v], ln)
        if op in ("pushbytes", "byte"):
            if len(a) == 2 and a[0] in ENCODINGS:
                a = ["%s(%s)" % tuple(a)]
            if len(a) != 1:
                raise AsmError("%s takes one literal: %r" % (op, f))
            return Instr("push", [self.bytes_lit(a[0])], ln)
        if op == "addr":
            need(1)
            return Instr("push", [core.D.b_lit(address_bytes(a[0]))], ln)
        if op == "method":
            need(1)
            if not a[0].startswith('"'):
                raise AsmError("method needs a string")
            import hashlib
            try:
                h = hashlib.new("sha512_256", bytes(string_cells(a[0]))).digest()[:4]
            except ValueError:
                h = hashlib.sha512(bytes(string_cells(a[0]))).digest()[:4]
            return Instr("push", [core.D.b_lit(h)], ln)
        if op in BRANCH:
            need(1)
            self.refs.append((a[0], ln))
            return Instr(op, a, ln)
        if op in MULTI:
            for t in a:
                self.refs.append((t, ln))
            return Instr(op, a, ln)
        if op == "replace":
            op = "replace2" if a else "replace3"
        if op == "extract" and not a:
            op = "extract3"
        if op == "substring" and not a:
            op = "substring3"
        if op not in SPEC:
            raise AsmError("unknown opcode %r" % (f,))
        if op in U8_IMMS:
            need(U8_IMMS[op])
            v = [self.u8(num(t), f) for t in a]
            if op == "substring":
                if v[1] < v[0]:
                    raise AsmError("substring end before start")
            return Instr(op, v, ln)
        if op in ("txn", "itxn", "gtxns"):
            if len(a) == 2:
                op = {"txn": "txna", "itxn": "itxna", "gtxns": "gtxnsa"}[op]
        if op in ("gtxn", "gitxn") and len(a) == 3:
            op += "a"
        if op in ("txn", "itxn", "itxn_field", "gtxns"):
            need(1)
            self.field(a[0], op, False)
            return Instr(op, a, ln)
        if op in ("txna", "itxna", "gtxnsa"):
            need(2)
            self.field(a[0], op, True)
            return Instr(op, [a[0], self.u8(num(a[1]), f)], ln)
        if op in ("txnas", "itxnas", "gtxnsas"):
            need(1)
            self.field(a[0], op, True)
            return Instr(op, a, ln)
        if op in ("gtxn", "gitxn"):
            need(2)
            self.field(a[1], op, False)
            return Instr(op, [self.u8(num(a[0]), f), a[1]], ln)
        if op in ("gtxna", "gitxna"):
            need(3)
            self.field(a[1], op, True)
            return Instr(op, [self.u8(num(a[0]), f), a[1], self.u8(num(a[2]), f)], ln)
        if op in ("gtxnas", "gitxnas"):
            need(2)
            self.field(a[1], op, True)
            return Instr(op, [self.u8(num(a[0]), f), a[1]], ln)
        if op == "global":
            need(1)
            if a[0] not in GLOBAL_TYPES:
                raise AsmError("unknown global field %r" % f)
            return Instr(op, a, ln)
        if op in ("frame_dig", "frame_bury"):
            need(1)
            return Instr(op, [int(a[0])], ln)
        n = max(SPEC[op]["Size"] - 1, 0)
        need(n)
        enum = SPEC[op].get("ArgEnum")
        if enum and n == 1 and a[0] not in enum:
            raise AsmError("unknown field %r" % f)
        return Instr(op, list(a), ln)

    def field(self, name, op, array):
        if name not in TXN_TYPES:
            raise AsmError("unknown transaction field %r in %s" % (name, op))
        if op == "itxn_field":
            if name not in SPEC["itxn_field"]["ArgEnum"]:
                raise AsmError("itxn_field cannot set %s" % name)
        elif array != (name in ARRAY_FIELDS):
            raise AsmError("%s %s: array/scalar mismatch" % (op, name))

    def bytes_lit(self, t):
        if t.startswith('"'):
            return string_literal(t)
        if t.startswith("0x"):
            h = t[2:]
            if len(h) % 2 or any(x not in "0123456789abcdefABCDEF" for x in h):
                raise AsmError("bad hex literal %r" % t)
            return core.D.b_cells([int(h[i:i + 2], 16) for i in range(0, len(h), 2)])
        if t.endswith(")") and t.split("(")[0] in ENCODINGS:
            import base64
            enc, data = t[:-1].split("(", 1)
            try:
                if enc in ("base64", "b64"):
                    return core.D.b_lit(base64.b64decode(data, validate=True))
                return core.D.b_lit(base64.b32decode(data + "=" * (-len(data) % 8)))
            except ValueError:
                raise AsmError("bad %s literal %r" % (enc, t))
        raise AsmError("byte literal expected, found %r" % t)


# ---------------------------------------------------------------- interpreter

class Outcome:
    """kind: exit | panic | cut ; value for exit; line of the last statement"""

    def __init__(self, kind, value=None, line=None, why=None):
        self.kind = kind
        self.value = value
        self.line = line
        self.why = why

    def __repr__(self):
        return "%s(%s, tl=%s%s)" % (self.kind, core.D.show(self.value) if self.value is not None else "",
                                    self.line, ", " + self.why if self.why else "")


def execute(prog, world, line_of, fuel=20000, event_limit=None, strict_depth=True, init_slots=None):
    """run TEAL; line_of maps a TEAL line to a Tealish line.
    strict_depth: each subroutine must leave exactly its results (checked by the
    caller through world.depth_log)"""
    D = core.D
    stack = []
    calls = []
    slots = {} if init_slots is None else init_slots
    pc = 0
    world.slots = slots
    world.stack = stack
    world.pc_log = []
    ins, labels = prog.ins, prog.labels
    n = len(ins)

    def pop():
        base = 0
        if len(stack) <= base:
            raise IllTyped("stack underflow")
        return stack.pop()

    steps = 0
    cur = None
    try:
        while True:
            steps += 1
            if steps > fuel:
                return Outcome("cut", line=world.line)
            if event_limit is not None and len(world.events) >= event_limit:
                return Outcome("cut", line=world.line)
            if pc >= n:
                # running off the end: the program succeeds iff one non-zero uint is left
                if len(stack) != 1:
                    return Outcome("panic", line=world.line, why="end of program, stack depth %d" % len(stack))
                return Outcome("exit", U(stack[-1]), line=world.line)
            i = ins[pc]
            op = i.op
            world.teal_op = op
            world.teal_line = i.line
            world.line = line_of(i.line)
            pc += 1
            if op == "push":
                stack.append(i.imms[0])
            elif op == "load":
                s = concrete_index(i.imms[0])
                stack.append(slots.get(s, 0))
            elif op == "store":
                s = concrete_index(i.imms[0])
                slots[s] = pop()
            elif op == "b":
                pc = labels[i.imms[0]]
            elif op == "bz":
                if U(pop()) == 0:
                    pc = labels[i.imms[0]]
            elif op == "bnz":
                if U(pop()) != 0:
                    pc = labels[i.imms[0]]
            elif op == "callsub":
                calls.append((pc, i.imms[0], len(stack)))
                if len(calls) > 60:
                    raise Panic("call depth")
                pc = labels[i.imms[0]]
            elif op == "retsub":
                if not calls:
                    raise Panic("retsub outside a subroutine")
                pc, lab, d0 = calls.pop()
                world.on_ret(lab, d0, len(stack)) if hasattr(world, "on_ret") else None
            elif op == "return":
                v = U(pop())
                return Outcome("exit", v, line=world.line)
            elif op == "err":
                raise Panic("err")
            elif op == "assert":
                if U(pop()) == 0:
                    raise Panic("assert")
            elif op == "switch":
                v = U(pop())
                for k, lab in enumerate(i.imms):
                    if v == k:
                        pc = labels[lab]
                        break
            elif op == "match":
                v = pop()
                cand = [pop() for _ in i.imms][::-1]
                for c, lab in zip(cand, i.imms):
                    if same(c, v):
                        pc = labels[lab]
                        break
            elif op == "pop":
                pop()
            elif op == "popn":
                for _ in range(int(i.imms[0])):
                    pop()
            elif op == "dup":
                v = pop()
                stack += [v, v]
            elif op == "dup2":
                b, a = pop(), pop()
                stack += [a, b, a, b]
            elif op == "dupn":
                v = pop()
                stack += [v] * (1 + int(i.imms[0]))
            elif op == "swap":
                b, a = pop(), pop()
                stack += [b, a]
            elif op == "dig":
                k = int(i.imms[0])
                if k >= len(stack):
                    raise IllTyped("dig underflow")
                stack.append(stack[-1 - k])
            elif op == "bury":
                k = int(i.imms[0])
                v = pop()
                if k == 0 or k > len(stack):
                    raise IllTyped("bury underflow")
                stack[-k] = v
            elif op == "cover":
                k = int(i.imms[0])
                v = pop()
                if k > len(stack):
                    raise IllTyped("cover underflow")
                stack.insert(len(stack) - k, v)
            elif op == "uncover":
                k = int(i.imms[0])
                if k >= len(stack):
                    raise IllTyped("uncover underflow")
                stack.append(stack.pop(-1 - k))
            else:
                args = [pop() for _ in SPEC[op].get("Args", "")][::-1]
                stack += prim(world, op, i.imms, args)
    except Panic as p:
        return Outcome("panic", line=world.line, why=p.why)


def concrete_index(v):
    return v if isinstance(v, int) else int(v)
