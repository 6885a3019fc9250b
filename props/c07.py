"""C07 type checks: accept/reject decided against value sets"""
from .common import *
from vlib import core
from vlib.core import and_, or_, not_
from vlib.avm import SPEC
from vlib import avm

ID = "C07"
BOUNDS = {
    "types": "int, uint8, uint64, bytes, bytes[N], addr, bigint, uint8[N], structs, box references, any, no value, several values, literals, constants",
    "sizes": "destination and source sizes symbolic and independent, 1..4096; integer literals symbolic, 0..2^64-1 and beyond",
    "several at once": "2 and 3 values assigned (with _ at every position), returned, cast and passed together; each position with its own types",
    "sites": "declaration, assignment (single, several), argument, result, struct field, box field, box key, opcode argument, operator operand, const, assert, condition, exit, "
             "for bounds, indices, switch options",
    "sources": "variables, parameters, function results, struct and box fields, conversions, opcode results, Txn/Gtxn/Itxn/Global fields, literals, constants",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "the value set of a type is the one of the language guide: int/uint64 every 64-bit integer, uint8 the integers below 256, bytes/bigint/box reference every byte "
    "string, bytes[N], uint8[N], addr (32) and structs the byte strings of exactly that size",
    "fields documented as addresses (Sender, Receiver, ...) hold 32 bytes",
    "UncheckedCast is the programmer's claim and taken as given",
    "sources of type any (e.g. results of app_global_get) may be assigned to destinations without a size (documented)",
]


class V:
    """value set of a type: kind 'int' (bits), 'bytes' (size, None = any size), 'any', 'none', 'several'"""

    def __init__(self, text, kind, size=None):
        self.text, self.kind, self.size = text, kind, size


def subset(a, d):
    """is every value of a a value of d"""
    if a.kind in ("none", "several"):
        return False
    if a.kind == "any":
        return d.size is None or (d.kind == "int" and d.size == 8)
    if a.kind != d.kind:
        return False
    if d.kind == "int":
        return a.size <= d.size
    if d.size is None:
        return True
    if a.size is None:
        return False
    return a.size == d.size


# name -> (declared type text, V, needs struct)
def types(n, tag):
    """all types with size n; tag distinguishes the struct names"""
    st = "S" + tag
    return {
        "int": V("int", "int", 8), "uint8": V("uint8", "int", 1), "uint64": V("uint64", "int", 8), "bytes": V("bytes", "bytes"),
        "bytesn": V("bytes[%s]" % n, "bytes", n), "addr": V("addr", "bytes", 32), "bigint": V("bigint", "bytes"), "arr": V("uint8[%s]" % n, "bytes", n),
        "struct": V(st, "bytes", n + 8),
    }


TN = ["int", "uint8", "uint64", "bytes", "bytesn", "addr", "bigint", "arr", "struct"]
# sources of the program that are not of a declarable type
EXTRA = ["box", "any", "none", "several"]

# documented as compatible (dst, src): exact pairs; sized ones when the sizes agree
DOC = {("int", "int"), ("int", "uint8"), ("int", "uint64"), ("uint64", "int"), ("uint64", "uint64"), ("uint8", "uint8"), ("uint64", "uint8"),
       ("bytesn", "bytesn"), ("addr", "addr"), ("bigint", "bigint"), ("arr", "arr"), ("struct", "struct"), ("struct", "bytesn"), ("bytesn", "addr"), ("addr", "bytesn"),
       ("int", "any"), ("bytes", "any")} | {("bytes", x) for x in TN if x not in ("int", "uint8", "uint64")}


def base(v):
    """an expression of the kind, to be cast"""
    return "Txn.Fee" if v.kind == "int" else "Txn.Note"


def struct_def(name, n):
    return ["struct %s:" % name, "    a: int", "    b: bytes[%s]" % n, "end"]


def decide(env, lines, ok, must):
    src = "\n".join(["#pragma version 8"] + lines) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if r.ok:
        env.check(ok, "accepted, but the source has values that are not values of the destination: rejection")
    else:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        env.check(not_(must), "compatible types rejected (%s): acceptance" % (r.err or "").split("\n")[0])


def setup(env):
    n = env.sym_int("n", 1, 4000)
    m = env.sym_int("m", 1, 4000)
    D = types(n, "dst")
    S = types(m, "src")
    pre = struct_def("Sdst", n) + struct_def("Ssrc", m)
    return n, m, D, S, pre


def wrapped(how, s, v, pre, decl, fs, m):
    """expression of source type s (V v), with what it needs declared"""
    if s == "any":
        return 'app_global_get("k")'
    if s == "none":
        fs += ["func fnone():", "    return", "end"]
        return "fnone()"
    if s == "several":
        fs += ["func fsev() int, int:", "    return 1, 2", "end"]
        return "fsev()"
    if s == "box":
        decl += ['box<Ssrc> xb = Box("k")']
        return "xb"
    if how == "var":
        decl += ["%s xv = UncheckedCast(%s, %s)" % (v.text, base(v), v.text)]
        return "xv"
    if how == "call":
        fs += ["func fx() %s:" % v.text, "    return UncheckedCast(%s, %s)" % (base(v), v.text), "end"]
        return "fx()"
    if how == "cast":
        return "Cast(%s, %s)" % (base(v), v.text)
    if how == "ensure":
        return "EnsureType(%s, %s)" % (base(v), v.text)
    if how == "unchecked":
        return "UncheckedCast(%s, %s)" % (base(v), v.text)
    if how == "field":
        pre += ["struct Sfield:", "    a: int", "    x: %s" % v.text, "end"]
        decl += ["Sfield xs = UncheckedCast(Txn.Note, Sfield)"]
        return "xs.x"
    if how == "boxfield":
        pre += ["struct Sfield:", "    a: int", "    x: %s" % v.text, "end"]
        decl += ['box<Sfield> xs = Box("k")']
        return "xs.x"
    raise KeyError(how)


FIELDABLE = ["int", "uint8", "uint64", "bytesn", "addr", "arr", "struct"]


def site(env, where, dst, how):
    """one site and destination type, every source type"""
    n, m, D, S, pre = setup(env)
    srcs = [x for x in TN if how not in ("field", "boxfield") or x in FIELDABLE]
    if how == "var":
        srcs = srcs + EXTRA
    s = srcs[env.choose(len(srcs), "src")]
    v = S.get(s) or V(s, {"box": "bytes"}.get(s, s))
    d = D[dst]
    decl, fs = [], []
    body = []
    e = wrapped(how, s, v, pre, decl, fs, m)
    if where == "decl":
        body = ["%s d = %s" % (d.text, e)]
    elif where == "asg":
        body = ["%s d" % d.text, "d = %s" % e]
    elif where == "masg":
        if s in EXTRA:
            return env.reached()
        fs += ["func fm() int, %s:" % v.text, "    return 1, UncheckedCast(%s, %s)" % (base(v), v.text), "end"]
        body = ["int q", "%s d" % d.text, "q, d = fm()"]
    elif where == "arg":
        fs += ["func fa(q: int, p: %s) int:" % d.text, "    return q", "end"]
        body = ["assert(fa(1, %s))" % e]
    elif where == "ret":
        if how == "var" and s not in EXTRA:
            fs += ["func fr(p: %s) %s:" % (v.text, d.text), "    return p", "end"]
            body = ["%s d = fr(%s)" % (d.text, e)]
        else:
            if how in ("field", "boxfield") or s == "box":
                k = [x for x in decl if "xs" in x or "xb" in x]
                decl = [x for x in decl if x not in k]
                fs += ["func fr() %s:" % d.text] + ["    " + x for x in k] + ["    return %s" % e, "end"]
            else:
                fs += ["func fr() %s:" % d.text, "    return %s" % e, "end"]
            body = ["%s d = fr()" % d.text]
    elif where == "ret2":
        if s == "several" or how in ("field", "boxfield") or s == "box" or (how == "var" and s not in EXTRA):
            return env.reached()
        fs += ["func fr() int, %s:" % d.text, "    return 1, %s" % e, "end"]
        body = ["int q", "%s d" % d.text, "q, d = fr()"]
    elif where in ("field", "boxfield"):
        if dst not in FIELDABLE:
            return env.reached()
        pre += ["struct Sd:", "    a: int", "    x: %s" % d.text, "end"]
        body = ["Sd d = bzero(SizeOf(Sd))" if where == "field" else 'box<Sd> d = Box("d")', "d.x = %s" % e]
    decide(env, pre + decl + body + ["exit(1)"] + fs, subset(v, d), and_(subset(v, d), (dst, s) in DOC))


def several(env, where, count, skip, focus):
    """several values at once: every position is judged by its own type"""
    n, m, D, S, pre = setup(env)
    pairs = [("int", "int"), ("bytes", "bytes"), ("uint8", "uint8"), ("bytesn", "bytesn"), ("int", "uint8"), ("bytes", "arr")]
    pos = []
    for i in range(count):
        if i == focus:
            names = ["int", "uint8", "bytes", "bytesn", "addr", "struct"]
            d = names[env.choose(len(names), "d")]
            s = names[env.choose(len(names), "s")]
            pos.append((D[d], S[s], d, s))
        else:
            d, s = pairs[env.choose(len(pairs) if count < 3 else 4, "o%d" % i)]
            v = D[s] if s == "bytesn" else S[s]
            pos.append((D[d], v, d, s))
    ok, must = True, True
    for i, (d, s, dn, sn) in enumerate(pos):
        if i in skip:
            continue
        ok = and_(ok, subset(s, d))
        must = must and (dn, sn) in DOC
    values = ", ".join("UncheckedCast(%s, %s)" % (base(s), s.text) for _, s, _, _ in pos)
    vs = ["_" if i in skip else "v%s" % "abc"[i] for i in range(count)]
    decls = ["%s %s" % (d.text, v) for (d, _, _, _), v in zip(pos, vs) if v != "_"]
    if where == "asg":
        body = decls + ["%s = fm()" % ", ".join(vs)]
        fs = ["func fm() %s:" % ", ".join(s.text for _, s, _, _ in pos), "    return %s" % values, "end"]
    elif where == "cast":
        body = decls + ["%s = UncheckedCast(fm(), %s)" % (", ".join(vs), ", ".join(s.text for _, s, _, _ in pos))]
        fs = ["func fm() %s:" % ", ".join("int" if s.kind == "int" else "bytes" for _, s, _, _ in pos),
              "    return %s" % ", ".join(base(s) for _, s, _, _ in pos), "end"]
    elif where == "ret":
        body = decls + ["%s = fm()" % ", ".join(vs)]
        fs = ["func fm() %s:" % ", ".join(d.text for d, _, _, _ in pos), "    return %s" % values, "end"]
    elif where == "arg":
        body = ["assert(fm(%s))" % values]
        fs = ["func fm(%s) int:" % ", ".join("%s: %s" % (v, d.text) for (d, _, _, _), v in zip(pos, vs)), "    return 1", "end"]
    decide(env, pre + body + ["exit(1)"] + fs, ok, and_(ok, must))


USES = {
    "int": ["assert(%s)", "exit(%s)", "if %s:\n    exit(2)\nend", "if 0:\n    exit(2)\nelif %s:\n    exit(3)\nend", "while %s:\n    break\nend", "if not %s:\n    exit(2)\nend",
            "i = Gtxn[%s].Fee", "y = Txn.ApplicationArgs[%s]", "y = Gtxn[0].ApplicationArgs[%s]", "y = Itxn.Logs[%s]", "i = %s + 1", "i = 1 + %s", "i = !%s", "i = sqrt(%s)", "y = itob(%s)", "i = exp(2, %s)",
            "y = substring3(y, %s, 2)", "y = bzero(%s)", "i = %s && 1", "i = addw(%s, 1)"],
    "bytes": ['box<Ssrc> k = Box(%s)', "log(%s)", "i = len(%s)", "i = btoi(%s)", "y = concat(y, %s)", "y = Concat(%s, y)", "y = Concat(y, %s)", 'y = ARC28Event("f()", %s)', "app_global_put(%s, 1)",
              "y = sha256(%s)", "y = Lpad(%s, 4)", "y = Rpad(%s, 4)", "y = %s b+ y", "i = y b< %s", "app_global_del(%s)", "y = extract(0, 1, %s)"],
}


def use(env, kind, i):
    """sites that take a value of one kind"""
    n, m, D, S, pre = setup(env)
    srcs = TN + EXTRA
    s = srcs[env.choose(len(srcs), "src")]
    v = S.get(s) or V(s, {"box": "bytes"}.get(s, s))
    d = V(kind, kind, 8 if kind == "int" else None)
    text = USES[kind][i]
    decl, fs = ["int i = 0", 'bytes y = "abc"'], []
    e = wrapped("var", s, v, pre, decl, fs, m)
    if text.startswith("i = addw"):
        decl += ["int hi"]
        text = text.replace("i = ", "hi, i = ")
    ok = subset(v, d)
    must = False if s == "any" and text.startswith(("y = Lpad", "y = Rpad")) else ok
    decide(env, pre + decl + (text % e).split("\n") + ["exit(1)"] * (not text.startswith("exit")) + fs, ok, must)


def switch(env):
    n, m, D, S, pre = setup(env)
    srcs = TN + EXTRA
    s = srcs[env.choose(len(srcs), "src")]
    v = S.get(s) or V(s, {"box": "bytes"}.get(s, s))
    decl, fs = [], []
    e = wrapped("var", s, v, pre, decl, fs, m)
    o, k = [("1", "int"), ('"a"', "bytes"), ("Pay", "int"), ("Txn.Note", "bytes"), ("fnone2()", "none")][env.choose(5, "opt")]
    fs += ["func fnone2():", "    return", "end"]
    ok = v.kind not in ("none", "several") and k != "none" and (v.kind == "any" or v.kind == k)
    decide(env, pre + decl + ["switch %s:" % e, "    %s: bb" % o, "end", "block bb:", "    exit(1)", "end"] + fs, ok, ok)


def int_literal(env, where):
    """integer literals: accepted iff the value is in the type"""
    v = env.sym_int("v", 0, 1 << 70)
    d = [("int", 1 << 64), ("uint8", 256), ("uint64", 1 << 64), ("bytes", 0), ("bytes[1]", 0), ("addr", 0), ("bigint", 0), ("uint8[2]", 0)][env.choose(8, "t")]
    t, top = d
    ok = v < top if top else False
    fs = []
    if where == "decl":
        b = ["%s d = %s" % (t, v)]
    elif where == "asg":
        b = ["%s d" % t, "d = %s" % v]
    elif where == "arg":
        b = ["assert(fa(%s))" % v]
        fs = ["func fa(p: %s) int:" % t, "    return 1", "end"]
    elif where == "ret":
        b = ["%s d = fr()" % t]
        fs = ["func fr() %s:" % t, "    return %s" % v, "end"]
    elif where == "field":
        if t in ("bytes", "bigint"):
            return env.reached()
        b = ["Sd d = bzero(SizeOf(Sd))", "d.x = %s" % v]
        fs = []
        decide(env, ["struct Sd:", "    a: int", "    x: %s" % t, "end"] + b + ["exit(1)"], ok, ok)
        return
    elif where == "const":
        if t not in ("int", "bytes", "addr", "bigint"):
            return env.reached()
        b = ["const %s CON = %s" % (t, v)]
    elif where == "viaconst":
        b = ["const int CON = %s" % v, "%s d = CON" % t]
    decide(env, b + ["exit(1)"] + fs, ok, False if where == "viaconst" and t == "uint8" else ok)


LITS = [("abc", 3), ("a", 1), ("x" * 32, 32), ("\\x00\\x01", 2), ("\\n", 1), ("a//b", 4), ('q\\"r', 3), ("\\\\", 1), ("", 0)]


def bytes_literal(env, where):
    raw, size = LITS[env.choose(len(LITS) - 1 if where in ("const", "viaconst") else len(LITS), "lit")]
    n = env.sym_int("n", 1, 4096)
    t = ["int", "uint8", "bytes", "bytes[%s]" % n, "addr", "bigint", "uint8[%s]" % n, "Sq"][env.choose(8, "t")]
    ok = {"int": False, "uint8": False, "bytes": True, "addr": size == 32, "bigint": True, "Sq": size == n + 8}.get(t, None)
    if ok is None:
        ok = size == n
    fs = []
    pre = struct_def("Sq", n)
    lit = '"%s"' % raw
    must = ok if t in ("bytes", "bytes[%s]" % n) else False
    if where == "decl":
        b = ["%s d = %s" % (t, lit)]
    elif where == "asg":
        b = ["%s d" % t, "d = %s" % lit]
    elif where == "arg":
        b = ["assert(fa(%s))" % lit]
        fs = ["func fa(p: %s) int:" % t, "    return 1", "end"]
    elif where == "ret":
        b = ["%s d = fr()" % t]
        fs = ["func fr() %s:" % t, "    return %s" % lit, "end"]
    elif where == "field":
        if t in ("bytes", "bigint"):
            return env.reached()
        pre += ["struct Sd:", "    a: int", "    x: %s" % t, "end"]
        b = ["Sd d = bzero(SizeOf(Sd))", "d.x = %s" % lit]
    elif where == "const":
        if t not in ("int", "bytes", "addr", "bigint"):
            return env.reached()
        b = ["const %s CON = %s" % (t, lit)]
    elif where == "viaconst":
        b = ["const bytes CON = %s" % lit, "%s d = CON" % t]
    decide(env, pre + b + ["exit(1)"] + fs, ok, must)


ADDR_FIELDS = {"Sender", "Receiver", "CloseRemainderTo", "AssetSender", "AssetReceiver", "AssetCloseTo", "RekeyTo", "FreezeAssetAccount", "ConfigAssetManager", "ConfigAssetReserve",
               "ConfigAssetFreeze", "ConfigAssetClawback", "ZeroAddress", "CreatorAddress", "CurrentApplicationAddress", "CallerApplicationAddress", "Accounts", "TxID", "VotePK", "SelectionPK",
               "Lease", "GroupID", "ConfigAssetMetadataHash"}


def fields(env, ns):
    """fields of transactions and globals by their kind in the spec"""
    table = {"Txn": avm.TXN_TYPES, "Global": avm.GLOBAL_TYPES}["Global" if ns == "Global" else "Txn"]
    names = sorted(table)
    f = names[env.choose(len(names), "f")]
    k = "int" if table[f] == "U" else "bytes"
    n = env.sym_int("n", 1, 4096)
    t = ["int", "uint8", "bytes", "bytes[%s]" % n, "addr"][env.choose(5, "t")]
    arr = f in ARR
    e = {"Txn": "Txn.%s", "Global": "Global.%s", "Gtxn": "Gtxn[1].%s", "Itxn": "Itxn.%s"}[ns] % f + ("[0]" if arr else "")
    size32 = f in ADDR_FIELDS
    ok = {"int": k == "int", "uint8": False, "bytes": k == "bytes", "addr": size32}.get(t)
    if ok is None:
        ok = and_(size32, n == 32)
    must = ok if t in ("int", "bytes") else False
    decide(env, ["%s d = %s" % (t, e), "exit(1)"], ok, must)


ARR = avm.ARRAY_FIELDS


def results(env):
    """opcode results by the spec"""
    names = sorted(k for k, o in SPEC.items() if o.get("Returns") and len(o["Returns"]) == 1 and not o.get("ArgEnum") and "Size" in o and o.get("Size", 1) == 1
                   and k.isidentifier() and not k.startswith(("intc", "bytec", "arg", "dup", "swap", "select", "cover", "uncover", "dig", "bury", "txn", "load", "global", "itxn", "gload", "gaid"))
                   and "|" not in k)
    name = names[env.choose(len(names), "op")]
    o = SPEC[name]
    a = ", ".join({"U": "Txn.Fee", "B": "Txn.Note", ".": "Txn.Fee"}[c] for c in o.get("Args", ""))
    n = env.sym_int("n", 1, 4096)
    t = ["int", "uint8", "bytes", "bytes[%s]" % n, "addr"][env.choose(5, "t")]
    k = {"U": "int", "B": "bytes", ".": "any"}[o["Returns"]]
    ok = {"int": k in ("int", "any"), "bytes": k in ("bytes", "any")}.get(t, False)
    if name in ("sha256", "keccak256", "sha512_256", "sha3_256", "sha3_256") and t.startswith("bytes["):
        ok = n == 32
    if name == "itob" and t.startswith("bytes["):
        ok = n == 8
    if t == "addr" and name in ("sha256", "keccak256", "sha512_256", "sha3_256"):
        ok = True
    if name in ("bitlen", "getbit", "getbyte", "!", "<", ">") and t == "uint8":
        ok = True
    decide(env, ["%s d = %s(%s)" % (t, name, a), "exit(1)"], ok, ok if t in ("int", "bytes") else False)


def value(env, kind):
    """accepted declarations of built byte strings: the value at run time has the declared size"""
    n = env.sym_int("n", 1, 64)
    m = env.sym_int("m", 1, 64)
    S = struct_def("Sq", m)
    e = ["bzero(%s)" % m, "Rpad(Txn.Note, %s)" % m, "Lpad(Txn.Note, %s)" % m, "ToBytes(7, %s)" % m, "Convert(Txn.Fee, bytes[%s])" % m, "bzero(SizeOf(Sq))", "Cast(Txn.Note, bytes[%s])" % m,
         "Rpad(\"abc\", %s)" % m, "Concat(\"abc\", bzero(%s))" % m, "itob(7)", "sha256(Txn.Note)", "Cast(Txn.Note, Sq)", "Cast(Txn.Note, uint8[%s])" % m, "EnsureType(Txn.Note, bytes[%s])" % m,
         'Address("RIKLQ5HEVXAOAWYSW2LGQFYGWVO4J6LIAQQ72ZRULHZ4KS5NRPCCKYPCUU")', 'ARC28Event("f()", bzero(%s))' % m, "Lpad(\"abc\", SizeOf(Sq))", "select(bzero(%s), Txn.Note, 1)" % m,
         "substring(0, 3, Txn.Note)", "extract(0, 3, Txn.Note)", "uncover(0, bzero(%s))" % m][kind]
    t, size = [("bytes[%s]" % n, n), ("Sd", n + 8), ("addr", 32), ("bytes", None)][env.choose(4, "t")]
    src = "\n".join(["#pragma version 8"] + S + struct_def("Sd", n) + ["%s d = %s" % (t, e), 'app_global_put("d", d)', "exit(1)"]) + "\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        if t == "bytes" and kind != 20:
            env.fail("byte string rejected for bytes: %s" % r.err)
        return env.reached()
    w = avm.World()
    out = avm.execute(env.assemble(r.lines), w, lambda l: None, fuel=2000)
    if not w.events or size is None or "sha256" in e:
        return env.reached()
    val = avm.B(w.events[0][2][1]) if not isinstance(w.events[0][2], str) else None
    env.check(core.D.b_len(val) == size, "size of the value stored in a variable of type %s" % t)


def uint8_value(env):
    """accepted declarations of uint8: the value at run time is below 256"""
    v = env.sym_int("v", 0, (1 << 64) - 1)
    es = ["%s" % v, "Cast(Txn.Fee, uint8)", "Convert(Txn.Note, uint8)", "FromBytes(Txn.Note, uint8)", "EnsureType(Txn.Fee, uint8)", "btoi(Txn.Note)", "fx()", "%s + 1" % v, "getbyte(Txn.Note, 0)",
          "SizeOf(bytes[%s])" % v, "Txn.TypeEnum", "Pay", "bitlen(Txn.Fee)", "sqrt(5)", "Cast(Txn.Fee, int)", "EnsureType(Txn.Fee, int)", "s.x", "s.y", "p", "Convert(Txn.Note, int)"]
    e = es[env.choose(len(es), "e")]
    src = "\n".join(["#pragma version 8", "struct Sq:", "    x: uint8", "    y: int", "end", "Sq s = Cast(Txn.Note, Sq)", "uint8 d = %s" % e, 'app_global_put("d", d)', "exit(1)", "func fx() uint8:",
                     "    return Cast(Txn.Fee, uint8)", "end"]).replace(" = p\n", " = fp(Cast(Txn.Fee, uint8))\n") + "\n"
    if "fp(" in src:
        src += "func fp(p: uint8) uint8:\n    return p\nend\n"
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        return env.reached()
    w = avm.World()
    avm.execute(env.assemble(r.lines), w, lambda l: None, fuel=2000)
    if not w.events:
        return env.reached()
    env.check(avm.U(w.events[0][2][1]) < 256, "value stored in a variable of type uint8 being below 256")


def std_sources(n):
    """expressions of every kind with the size n where it applies (kind is decided at run time)"""
    return {"int": "Txn.Fee", "uint8": "Cast(Txn.Fee, uint8)", "bytes": "Txn.Note", "bytesn": "Cast(Txn.Note, bytes[%s])" % n, "struct": "Cast(Txn.Note, Sq)", "addr": "Address(\"RIKLQ5HEVXAOAWYSW2LGQFYGWVO4J6LIAQQ72ZRULHZ4KS5NRPCCKYPCUU\")", "bigint": "Txn.Note b+ Txn.Note",
            "any": "gx()", "intlit": "%s" % n, "byteslit": '"abc"', "none": "log(Txn.Note)", "several": "addw(Txn.Fee, 1)", "cint": "CI", "cbytes": "CB", "fn": "fi()", "fb": "fb()", "fn2": "f2()", "push": "push(Txn.Fee)", "box": "bx",
            "type": "bytes"}


STD_FNS = ["Convert(X, T)", "Cast(X, T)", "EnsureType(X, T)", "FromBytes(X, T)", "ToBytes(X, M)", "ToBytes(3, X)", "Rpad(X, M)", "Lpad(X, M)", 'Rpad("abc", X)', 'Lpad("abc", X)', "Concat(X, \"a\")", 'Concat("a", X)', "Concat(X)",
           "bzero(X)", 'ARC28Event("f()", X)', "ARC28Event(X)", "SizeOf(X)", "Address(X)", "Convert(Convert(X, T), T)", "Cast(Convert(X, T), T)"]


def stdkinds(env, fn, dst):
    """standard functions applied to arguments of every kind: what is accepted leaves a value of the kind, and the size, of the variable"""
    n = env.sym_int("n", 1, 40)
    m = env.sym_int("m", 1, 40)
    f = STD_FNS[fn]
    srcs = std_sources(n)
    names = sorted(srcs)
    e = srcs[names[env.choose(len(names), "x")]]
    ts = ["int", "uint8", "bytes", "bytes[%s]" % m, "addr", "Sq", "uint8[%s]" % m, "bigint"]
    t = ts[env.choose(len(ts), "t")] if ", T" in f else "int"
    e = f.replace("X", e).replace("M", "%s" % m).replace("T)", t + ")")
    if "Txn.Note b+ Txn.Note" in e:
        e = e.replace("Txn.Note b+ Txn.Note", "(Txn.Note b+ Txn.Note)")
    d, kind, size = {"int": ("int", "int", 8), "uint8": ("uint8", "int", 1), "bytes": ("bytes", "bytes", None), "bytesn": ("bytes[%s]" % m, "bytes", m), "addr": ("addr", "bytes", 32),
                     "struct": ("Sq", "bytes", n + 8)}[dst]
    src = "\n".join(["#pragma version 8"] + struct_def("Sq", n) + ["const int CI = 7", 'const bytes CB = "cb"', 'box<Sq> bx = Box("k")', "%s d = %s" % (d, e), 'app_global_put("d", d)', "exit(1)", "func fi() int:", "    return Txn.Fee", "end",
                     "func fb() bytes:", "    return Txn.Note", "end", "func f2() int, bytes:", "    return Txn.Fee, Txn.Note", "end"]) + "\n"
    src = src.replace("gx()", 'app_global_get("q")')
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if not r.ok:
        if r.kind not in ("CompileError", "ParseError"):
            env.fail("rejected with %s: %s" % (r.kind, r.err))
        return env.reached()
    w = avm.World()
    avm.execute(env.assemble(r.lines), w, lambda l: None, fuel=2000)
    if not w.events:
        return env.reached()
    val = w.events[-1][2][1]
    if kind == "int":
        env.check(avm.U(val) < 256 if size == 1 else avm.U(val) >= 0, "value stored in a variable of type %s" % d)
    else:
        val = avm.B(val)
        env.check(core.D.b_len(val) == size if size is not None else True, "size of the value stored in a variable of type %s" % d)


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for where in ("decl", "asg", "masg", "arg", "ret", "ret2", "field", "boxfield"):
        for dst in TN:
            if where in ("field", "boxfield") and dst not in FIELDABLE:
                continue
            hows = ["var"]
            if where in ("decl", "asg") or deep:
                hows += ["call", "cast", "ensure", "unchecked", "field", "boxfield"]
            if where == "ret2":
                hows = ["call", "cast", "unchecked"]
            if where == "masg":
                hows = ["var"]
            for how in hows:
                out.append(("site/%s/%s/%s" % (where, dst, how), "site", dict(where=where, dst=dst, how=how)))
    for where in ("asg", "cast", "ret", "arg"):
        for count in (2, 3):
            for focus in range(count):
                skips = [()]
                if where in ("asg", "cast"):
                    skips += [(i,) for i in range(count) if i != focus]
                    if count == 3:
                        skips += [tuple(i for i in range(count) if i != focus)]
                for skip in skips:
                    if not deep and count == 3 and where in ("ret", "arg") and focus == 1:
                        continue
                    out.append(("several/%s/%d/%d/%s" % (where, count, focus, "".join(map(str, skip)) or "-"), "several",
                                dict(where=where, count=count, skip=list(skip), focus=focus)))
    for kind in ("int", "bytes"):
        for i in range(len(USES[kind])):
            out.append(("use/%s/%d" % (kind, i), "use", dict(kind=kind, i=i)))
    for where in ("decl", "asg", "arg", "ret", "field", "const", "viaconst"):
        out.append(("intlit/" + where, "int_literal", dict(where=where)))
        out.append(("byteslit/" + where, "bytes_literal", dict(where=where)))
    out.append(("switch", "switch", {}))
    for ns in ("Txn", "Global", "Gtxn", "Itxn"):
        out.append(("fields/" + ns, "fields", dict(ns=ns)))
    out.append(("results", "results", {}))
    for k in range(21):
        out.append(("value/%d" % k, "value", dict(kind=k)))
    out.append(("value/uint8", "uint8_value", {}))
    for i in range(len(STD_FNS)):
        for dst in ("int", "uint8", "bytes", "bytesn", "addr", "struct"):
            out.append(("stdkinds/%d/%s" % (i, dst), "stdkinds", dict(fn=i, dst=dst)))
    return out
