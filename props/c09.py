"""C09 byte-string builders"""
import base64
import hashlib

from .common import *
from vlib import core
from vlib.core import MAXB
from vlib.avm import prim
from vlib.lang import (Std, Struct, SField, FSet, T, taddr, tuint8, tuint64, tarr, tbigint, Cast, Concat, Raw, Enum,
                       Cst, ConstDef, Func, Return, If, While, Block, Jump, Assert, Str, chk, U, B)

ID = "C09"
BOUNDS = {
    "Concat": "1..3 operands of every byte kind, 4..9 and 12 (thorough 14, 20, 30) of inputs and literals, nested up to 3 deep",
    "pad sizes": "literals 1..4096 symbolic, 0, constants, SizeOf(T) and named integers",
    "bzero": "literal sizes 0..5000 symbolic, arbitrary run-time sizes, constants, SizeOf(T)",
    "SizeOf": "basic types, arrays and structs of up to 4 fields with symbolic array sizes",
    "Address": "public keys: all-zero, all-one, and 16 others, as literal or constant; 12 texts that are no addresses are rejected",
    "ARC28Event": "8 signatures with special characters, 0..2 arguments (thorough 3); one signature with 4..8, 10 (thorough 13, 16, 20) arguments",
    "values": "all byte strings up to 4096 bytes and all 64-bit integers",
    "places": "declaration, assignment, argument, result, operand, condition, struct field, router-free public function, loop body",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + ["SHA-512/256 is taken from OpenSSL and base32 from the Python library on the side of the oracle"]


def pad(e, n, left, text=None):
    def fn(c, vals):
        D = core.D
        v = B(vals[0])
        chk(D.b_len(v) <= n, "pad")
        chk(n <= MAXB, "pad size")
        z = D.b_zero(n - D.b_len(v))
        return D.b_concat(z, v) if left else D.b_concat(v, z)
    return Std("Lpad" if left else "Rpad", [e], [str(n) if text is None else text], fn)


def bzero(n, text=None):
    return Raw("bzero(%s)" % (n if text is None else text), lambda c: prim(c.w, "bzero", [], [n])[0])


def bzero_rt(e):
    return Op("bzero", [], [e])


def sizeof(t):
    return Raw("SizeOf(%s)" % t.text, lambda c: t.size)


def run(env, body, fs=(), pre=()):
    env.run_program(Prog([Note("#pragma version 8")] + list(pre) + body + [Exit(Int(1))] + list(fs)))


def nonce(i):
    return CallF("nx%d" % i, [])


def nonce_fs():
    return [Func("nx%d" % i, [], [tbytes()], [put("n%d" % i, uin(5)), Return(bin_(i + 4))]) for i in range(3)]


LITS = [Str("", b""), Str("abc", b"abc"), Str("a#b // c", b"a#b // c"), Str('\\"q\\"', b'"q"'), Str("\\x00\\xff", b"\x00\xff"), Str(", )", b", )")]


def operand(env, i, tag):
    k = env.choose(6, tag)
    return [lambda: bin_(i), lambda: LITS[i % len(LITS)], lambda: nonce(i % 3), lambda: Var("v%d" % (i % 2)),
            lambda: SField("s", "ab"), lambda: Op("itob", [], [uin(i)])][k]()


def place(env, how, mk, t=None):
    """the bytes of mk() are observable"""
    t = t or tbytes()
    if how == "decl":
        return [Decl(t, "d", mk()), put("d", Var("d"))], []
    if how == "assign":
        return [Decl(t, "d"), Decl(tint(), "p", uin(9)), Asg("d", mk()), put("d", Var("d")), put("p", Var("p"))], []
    if how == "arg":
        return [put("x", mk())], []
    if how == "param":
        f = Func("ff", [("p", tint()), ("x", tbytes()), ("q", tint())], [tint()], [put("x", Var("x")), put("p", Var("p")), Return(Var("q"))])
        return [Decl(tint(), "r"), Asg("r", CallF("ff", [uin(7), mk(), uin(8)])), put("r", Var("r"))], [f]
    if how == "operand":
        return [put("x", Bin("+", Bin("+", uin(7), Op("len", [], [mk()])), Int(1)))], []
    if how == "cond":
        return [If([(False, Bin("==", mk(), bin_(10)), [mark(1)])], [mark(2)])], []
    if how == "twice":
        return [put("x", Concat(mk(), Str("-", b"-"), mk()))], []


PLACES = ["decl", "assign", "arg", "param", "operand", "cond", "twice"]


def setup(env):
    k = env.sym_int("k", 1, 4000)
    st = Struct("Item", [("aa", tint()), ("ab", tbytes(k))])
    return st, [st, Decl(tbytes(), "v0", bin_(8)), Decl(tbytes(), "v1", bin_(9)), Decl(st.type, "s", Cast(bin_(7), st.type))]


def concat(env, n, how):
    st, pre = setup(env)
    ops = [operand(env, i, "o%d" % i) for i in range(n)]
    body, fs = place(env, how, lambda: Concat(*ops))
    run(env, body, fs + nonce_fs(), pre)


def concat_nest(env, k):
    st, pre = setup(env)
    a, b, c, d = bin_(0), nonce(1), Str("x", b"x"), Var("v1")
    e = [lambda: Concat(Concat(a, b), Concat(c, d)), lambda: Concat(a, Concat(b, Concat(c, d, a))), lambda: Concat(Concat(Concat(a), b, c), d),
         lambda: Concat(pad(a, 40, True), pad(b, 8, False), c), lambda: Concat(bzero(7), a, sized(a)),
         lambda: pad(Concat(a, b, c), 64, False), lambda: pad(pad(Concat(a, b), 30, True), 99, False)][k]
    run(env, [put("x", e()), put("y", Var("v0"))], nonce_fs(), pre)


def sized(e):
    return Op("itob", [], [Op("len", [], [e])])


def padding(env, left, how, kind):
    st, pre = setup(env)
    if kind == "lit":
        n = env.sym_int("n", 1, 4096)
        t = tbytes(n)
        mk = lambda: pad(bin_(0), n, left)
    elif kind == "zero":
        t = tbytes()
        mk = lambda: pad(bin_(0), 0, left)
    elif kind == "const":
        n = env.sym_int("n", 1, 4096)
        pre = pre[:1] + [ConstDef("int", "SIZE", str(n), n)] + pre[1:]
        t = tbytes(n)
        mk = lambda: pad(Var("v1"), n, left, "SIZE")
    elif kind == "sizeof":
        t = st.type
        mk = lambda: pad(nonce(1), st.size, left, "SizeOf(Item)")
    elif kind == "sizeof2":
        n = env.sym_int("n", 1, 4096)
        t = tbytes(n)
        mk = lambda: pad(Concat(bin_(0), Str("z", b"z")), n, left, "SizeOf(bytes[%s])" % n)
    elif kind == "enum":
        t = tbytes()
        mk = lambda: pad(bin_(0), 4, left, "UpdateApplication")
    elif kind == "literal":
        n = env.sym_int("n", 1, 4096)
        t = tbytes(n)
        mk = lambda: pad(LITS[env.choose(len(LITS), "l")], n, left)
    elif kind == "field":
        n = env.sym_int("n", 1, 4096)
        t = tbytes(n)
        mk = lambda: pad(SField("s", "ab"), n, left)
    elif kind == "itob":
        n = env.sym_int("n", 1, 4096)
        t = tbytes(n)
        mk = lambda: pad(Op("itob", [], [uin(0)]), n, left)
    body, fs = place(env, how, mk, t if how == "decl" else None)
    run(env, body, fs + nonce_fs(), pre)


def padboth(env):
    """two pads of the same string at independent sizes"""
    st, pre = setup(env)
    n = env.sym_int("n", 1, 4096)
    m = env.sym_int("m", 1, 4096)
    run(env, [put("x", pad(pad(bin_(0), n, True), m, False)), put("y", pad(pad(bin_(0), n, False), m, True))], [], pre)


def zeros(env, kind, how):
    st, pre = setup(env)
    t = None
    if kind == "lit":
        n = env.sym_int("n", 1, 5000)
        t = tbytes(n)
        mk = lambda: bzero(n)
    elif kind == "zero":
        mk = lambda: bzero(0)
    elif kind == "run":
        mk = lambda: bzero_rt(uin(0))
    elif kind == "sum":
        mk = lambda: bzero_rt(Bin("+", uin(0), Int(3)))
    elif kind == "const":
        n = env.sym_int("n", 1, 5000)
        pre = pre[:1] + [ConstDef("int", "SIZE", str(n), n)] + pre[1:]
        t = tbytes(n)
        mk = lambda: bzero(n, "SIZE")
    elif kind == "sizeof":
        t = st.type
        mk = lambda: bzero(st.size, "SizeOf(Item)")
    elif kind == "len":
        mk = lambda: bzero_rt(Op("len", [], [Var("v1")]))
    body, fs = place(env, how, mk, t if how == "decl" else None)
    run(env, body, fs + nonce_fs(), pre)


def sizes(env, how):
    n = env.sym_int("n", 1, 4096)
    m = env.sym_int("m", 1, 4096)
    st = Struct("Item", [("aa", tint()), ("ab", tbytes(n)), ("ac", tuint8()), ("ad", tarr(m))])
    st2 = Struct("Pair", [("one", st.type), ("two", taddr()), ("six", tuint64())])
    ts = [tint(), tuint8(), tuint64(), taddr(), tbytes(n), tarr(m), st.type, st2.type]
    t = ts[env.choose(len(ts), "t")]
    e = sizeof(t)
    fs = []
    if how == "decl":
        body = [Decl(tint(), "x", e), put("x", Var("x"))]
    elif how == "sum":
        body = [put("x", Bin("+", Bin("*", e, Int(2)), uin(0)))]
    elif how == "cond":
        body = [If([(False, Bin("<", uin(0), e), [mark(1)])], [mark(2)]), Assert(e)]
    elif how == "arg":
        fs = [Func("ff", [("aaa", tint()), ("bbb", tint())], [tint()], [put("b", Var("bbb")), Return(Var("aaa"))])]
        body = [put("x", CallF("ff", [e, sizeof(ts[0])]))]
    elif how == "index":
        body = [put("x", Op("substring3", [], [bin_(0), Int(0), e]))]
    run(env, body, fs, [st, st2])


KEYS = [bytes(32), b"\xff" * 32, bytes(range(32)), b"\x80" + bytes(31), bytes(31) + b"\x01"] + [
    hashlib.sha256(b"key%d" % i).digest() for i in range(13)]


def addr_text(key):
    return base64.b32encode(key + hashlib.new("sha512_256", key).digest()[-4:]).decode()[:58]


def address(env, how, form):
    key = KEYS[env.choose(len(KEYS), "key")]
    text = addr_text(key)
    pre = []
    if form == "const":
        pre = [ConstDef("bytes", "OWNER", '"%s"' % text, text.encode())]
        mk = lambda: Raw("Address(OWNER)", lambda c: core.D.b_lit(key))
    else:
        mk = lambda: Raw('Address("%s")' % text, lambda c: core.D.b_lit(key))
    body, fs = place(env, how, mk, [taddr(), tbytes(32), tbytes()][env.choose(3, "t")] if how == "decl" else None)
    run(env, body, fs, pre)


def bad_address(env):
    good = addr_text(KEYS[2])
    bad = ["", "A", good[:-1], good + "A", good.lower(), good[:-1] + ("A" if good[-1] != "A" else "B"), "B" + good[1:] if good[0] != "B" else "C" + good[1:],
           good[:20] + "1" + good[21:], good[:20] + " " + good[21:], good[:20] + "é" + good[21:], good + "======", "0x" + KEYS[2].hex()]
    k = env.choose(len(bad) + 5, "bad")
    arg = '"%s"' % bad[k] if k < len(bad) else ["3", "Txn.Sender", "NoOp", '"a", "b"', ""][k - len(bad)]
    src = "#pragma version 8\nlog(Address(%s))\nexit(1)\n" % arg
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if r.ok:
        try:
            env.assemble(r.lines)
        except core.AsmError as e:
            env.fail("accepted, but the TEAL does not assemble: %s" % e)
        env.fail("not an address, but accepted")
    if r.kind not in ("CompileError", "ParseError"):
        env.fail("rejected with %s" % r.kind)
    env.reached()


SIGS = ["set_manager(address)", "f()", "", "swap(uint64,uint64,byte[])", "log #1 // x(uint64)", "A(b,(c,d)[])", "x:y = z", "café(uint8)"]


def event(env, n, how):
    st, pre = setup(env)
    sig = SIGS[env.choose(len(SIGS), "sig")] if n < 4 else SIGS[3]
    pfx = hashlib.new("sha512_256", sig.encode()).digest()[:4]
    ops = [operand(env, i, "o%d" % i) for i in range(n)] if n < 4 else [bin_(i % 11) if i % 3 else Str("%d," % i) for i in range(n)]

    def fn(c, vals):
        r = core.D.b_lit(pfx)
        for v in vals:
            r = prim(c.w, "concat", [], [r, v])[0]
        return r

    class Ev(Std):
        def s(self):
            return "ARC28Event(%s)" % ", ".join(['"%s"' % sig] + [a.s() for a in self.args])

    mk = lambda: Ev("ARC28Event", ops, [], fn)
    if how == "log":
        body, fs = [ExprStmt(Op("log", [], [mk()]))], []
    else:
        body, fs = place(env, how, mk)
    run(env, body, fs + nonce_fs(), pre)


ARITY = {"Concat": (1, None), "Rpad": (2, 2), "Lpad": (2, 2), "bzero": (1, 1), "SizeOf": (1, 1), "Address": (1, 1), "ARC28Event": (1, None)}


def arity(env):
    """a call with too few or too many arguments is rejected"""
    names = sorted(ARITY)
    name = names[env.choose(len(names), "name")]
    lo, hi = ARITY[name]
    n = env.choose(5, "n")
    args = {"Rpad": ["Txn.Note", "5"], "Lpad": ["Txn.Note", "5"], "bzero": ["5"], "SizeOf": ["int"], "Address": ['"%s"' % addr_text(KEYS[3])]}.get(name, ['"a"', "Txn.Note"])
    args = (args + ["5", "6", "7", "8"] if hi is not None else args + ["Txn.Note"] * 4)[:n]
    call = "%s(%s)" % (name, ", ".join(args))
    src = "#pragma version 8\nlog(%s)\nexit(1)\n" % (call if name != "SizeOf" else "itob(%s)" % call)
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    want = n >= lo and (hi is None or n <= hi)
    if r.ok != want:
        env.fail("%s with %d arguments %s" % (name, n, "accepted" if r.ok else "rejected: %s" % r.err))
    if not r.ok and r.kind not in ("CompileError", "ParseError"):
        env.fail("rejected with %s" % r.kind)
    env.reached()


def wide(env, n):
    """many operands: positions kept"""
    run(env, [put("x", Concat(*[bin_(i % 11) if i % 3 else Str("%d," % i) for i in range(n)]))])


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for n in range(1, 4):
        for how in PLACES:
            if deep or n < 3 or how in ("decl", "param", "arg"):
                out.append(("concat/%d/%s" % (n, how), "concat", dict(n=n, how=how)))
    for k in range(7):
        out.append(("concat/nested/%d" % k, "concat_nest", dict(k=k)))
    for n in [4, 5, 6, 7, 8, 9, 12] + ([14, 20, 30] if deep else []):
        out.append(("concat/wide/%d" % n, "wide", dict(n=n)))
    if deep:
        out.append(("concat/4/arg", "concat", dict(n=4, how="arg")))
    for left in (0, 1):
        for i, kind in enumerate(["lit", "zero", "const", "sizeof", "sizeof2", "enum", "literal", "field", "itob"]):
            for j, how in enumerate(PLACES):
                if deep or kind == "lit" or (i + j + left) % 3 == 0 or how == "decl":
                    out.append(("%s/%s/%s" % ("Lpad" if left else "Rpad", kind, how), "padding", dict(left=left, how=how, kind=kind)))
    out.append(("pad/both", "padboth", {}))
    for kind in ["lit", "zero", "run", "sum", "const", "sizeof", "len"]:
        for how in PLACES:
            out.append(("bzero/%s/%s" % (kind, how), "zeros", dict(kind=kind, how=how)))
    for how in ["decl", "sum", "cond", "arg", "index"]:
        out.append(("SizeOf/" + how, "sizes", dict(how=how)))
    for form in ("lit", "const"):
        for how in PLACES:
            out.append(("Address/%s/%s" % (form, how), "address", dict(how=how, form=form)))
    out.append(("Address/rejected", "bad_address", {}))
    for n in range(0, 3 if not deep else 4):
        for how in ["log"] + PLACES:
            if deep or n < 2 or how in ("log", "param"):
                out.append(("ARC28Event/%d/%s" % (n, how), "event", dict(n=n, how=how)))
    for n in [4, 5, 6, 7, 8, 10] + ([13, 16, 20] if deep else []):
        for how in ("log", "param"):
            out.append(("ARC28Event/wide/%d/%s" % (n, how), "event", dict(n=n, how=how)))
    out.append(("arity", "arity", {}))
    return out
