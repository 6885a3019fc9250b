"""C12 inner transactions and groups"""
from .common import *
from vlib import core, avm
from vlib.lang import InnerTxn, InnerGroup, Cst, Enum, ConstDef, Router, Switch, Struct, SField

ID = "C12"
BOUNDS = {
    "fields": "every settable field, alone and in lists of 1..8 fields; array fields with 1..4 elements (indices up to 12)",
    "values": "literals (every 64-bit value for the first field, 0..255 or 2^56..2^64-1 for others), variables, constants, named constants, opcodes, function results, Itxn fields of earlier transactions; "
              "all run-time values",
    "structure": "sequences of 1..3 inner transactions and groups of 1..3 transactions in main, blocks, functions (routed ones too), conditional "
                 "arms, while and for loops (<= 4 iterations) and called functions, nested two deep",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "inner transactions are compared as the sequence of itxn_begin / itxn_next / itxn_field / itxn_submit events with their operands; what the "
    "network does with a transaction is not modelled",
    "leaving an inner_group by return, break, jump or exit is outside the scope (the language guide does not say what it means)",
]
FIELDS = avm.SPEC["itxn_field"]["ArgEnum"]
TYPES = dict(zip(FIELDS, avm.SPEC["itxn_field"]["ArgEnumTypes"]))
ARRAYS = {"ApplicationArgs", "Accounts", "Assets", "Applications", "ApprovalProgramPages", "ClearStateProgramPages"}
ENUMS = ["Pay", "Acfg", "Axfer", "Afrz", "Appl"]


def val(env, f, form, i=0):
    """(declarations, expression) of the kind of the field"""
    i %= 10
    u = TYPES[f] == "U"
    if form == "lit":
        return [], (Int(env.sym_int("v%d" % i, *((0, 2 ** 64 - 1) if i == 0 else (2 ** 56, 2 ** 64 - 1) if i % 2 else (0, 255)))) if u else Str(["abc", "", "a: b", "# x", "x[0]: 3", "//"][i % 6]))
    if form == "var":
        return [Decl(tint() if u else tbytes(), "v%d" % i, uin(i) if u else bin_(i))], Var("v%d" % i)
    if form == "op":
        return [], (Bin("+", uin(i), uin(i + 1)) if u else Op("itob", [], [uin(i)]))
    if form == "call":
        return [], CallF("fu" if u else "fb", [uin(i) if u else bin_(i)])
    if form == "const":
        return [], Cst("CU" if u else "CB")
    if form == "itxn":
        return [], (Fld("itxn", "CreatedAssetID") if u else Fld("itxn", "Logs", ai=Int(0)))
    return [], uin(i) if u else bin_(i)


HEAD = [ConstDef("int", "CU", "77", 77), ConstDef("bytes", "CB", '"const"', b"const")]
FUNCS = [Func("fu", [("x", tint())], [tint()], [put("fu", Var("x")), Return(Bin("+", Var("x"), Int(1)))]),
         Func("fb", [("x", tbytes())], [tbytes()], [put("fb", Var("x")), Return(Concat(Var("x"), Str("!")))])]
FORMS = ["lit", "var", "op", "call", "const", "itxn", "field"]


def P(*st):
    return prog(*(HEAD + list(st)))


def one(env, f):
    """one field, every form of value"""
    form = FORMS[env.choose(len(FORMS), "form")]
    pre, e = val(env, f, form)
    ix = None
    if f in ARRAYS:
        ix = [None, 0][env.choose(2, "ix")]
    st = pre + [InnerTxn([(f, ix, e)]), mark(2)]
    if env.choose(2, "grp"):
        st = pre + [InnerGroup([InnerTxn([(f, ix, e)])]), mark(2)]
    env.run_program(P(*(st + [Exit(Int(1))] + FUNCS)))


def many(env, start, n, form):
    """several fields keep their order, each expression evaluated once"""
    fs = [FIELDS[(start + 7 * i) % len(FIELDS)] for i in range(n)]
    pre, out = [], []
    for i, f in enumerate(fs):
        p, e = val(env, f, form, i)
        pre += p
        out.append((f, None, e))
        if i == 1:
            out.append(("#", None, "note: value"))
    env.run_program(P(*(pre + [InnerTxn(out), mark(2), Exit(Int(1))] + FUNCS)))


def enums(env):
    k = env.choose(11, "k")
    ocs = ["NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication"]
    if k < 5:
        st = [InnerTxn([("TypeEnum", None, Enum(ENUMS[k])), ("Amount", None, uin(0))])]
    else:
        st = [InnerTxn([("TypeEnum", None, Enum("Appl")), ("OnCompletion", None, Enum(ocs[k - 5])), ("Fee", None, Int(0))])]
    env.run_program(P(*(st + [Exit(Int(1))])))


def arrays(env, f, n, other):
    """elements in index order, interleaved with other fields"""
    fs = []
    for i in range(n):
        fs.append((f, i, val(env, f, ["field", "op", "call"][(i + env.choose(3, "f%d" % i) if i < 2 else i) % 3], i)[1]))
        if other and i % 2 == 0:
            fs.append((["Fee", "Note", "Amount", "Receiver", "Sender", "RekeyTo"][i // 2 % 6], None, uin(i) if i // 2 % 6 in (0, 2) else bin_(i % 8)))
        if other and i == 1:
            g = "Accounts" if f != "Accounts" else "ApplicationArgs"
            fs.append((g, 0, bin_(3)))
    env.run_program(P(*([InnerTxn(fs), mark(2), Exit(Int(1))] + FUNCS)))


def arrays_bad(env, f):
    """an index out of order is rejected, the right order accepted"""
    n = 1 + env.choose(3, "n")
    ix = [env.choose(4, "i%d" % i) for i in range(n)]
    txt = "\n".join("    %s[%d]: %s" % (f, i, "1" if TYPES[f] == "U" else '"a"') for i in ix)
    src = "#pragma version 8\ninner_txn:\n    TypeEnum: Appl\n%s\nend\nexit(1)\n" % txt
    if env.choose(2, "grp"):
        src = src.replace("inner_txn:", "inner_group:\ninner_txn:").replace("end\n", "end\nend\n")
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if r.ok != (ix == list(range(n))):
        env.fail("indices %s are %s" % (ix, "accepted" if r.ok else "rejected: %s" % r.err))
    if not r.ok and r.kind not in ("ParseError", "CompileError"):
        env.fail("crash: %s: %s" % (r.kind, r.err))
    env.reached()


def tx(i, extra=()):
    return InnerTxn([("TypeEnum", None, Enum("Pay")), ("Amount", None, Int(100 + i))] + list(extra))


PLACES = ["main", "block", "inner", "if", "elif", "else", "while", "for", "func", "routed", "nested", "whilefunc", "switchblock", "underfor"]


def place(where, st, more=()):
    """statements in a place; reached once or several times"""
    more = list(more)
    if where == "main":
        return P(*(st + [mark(90), Exit(Int(1))] + more))
    if where == "block":
        return P(*([tx(50), Jump("b"), Block("b", st + [mark(90), Exit(Int(1))])] + more))
    if where == "inner":
        return P(*([Jump("b"), Block("b", [Jump("c"), Block("c", st + [mark(90), Exit(Int(1))])])] + more))
    if where == "if":
        return P(*([If([(False, uin(6), st)]), mark(90), tx(51), Exit(Int(1))] + more))
    if where == "elif":
        return P(*([If([(True, uin(6), [tx(52)]), (False, uin(7), st)], [tx(53)]), mark(90), Exit(Int(1))] + more))
    if where == "else":
        return P(*([If([(False, uin(6), [tx(52)])], st), mark(90), Exit(Int(1))] + more))
    if where == "while":
        return P(*([Decl(tint(), "w", Int(0)), While(False, Bin("<", Var("w"), uin(6)), [Asg("w", Bin("+", Var("w"), Int(1)))] + st), mark(90), Exit(Int(1))] + more))
    if where == "for":
        return P(*([Decl(tint(), "n", uin(6)), For("w", Int(0), Var("n"), [put("w", Var("w"))] + st), mark(90), tx(54), Exit(Int(1))] + more))
    if where == "underfor":
        return P(*([Decl(tint(), "n", uin(6)), For(None, Int(0), Var("n"), st), mark(90), tx(54), Exit(Int(1))] + more))
    if where == "func":
        return P(*([tx(55), ExprStmt(CallF("work")), mark(90), ExprStmt(CallF("work")), Exit(Int(1)), Func("work", [], [], st + [Return()])] + more))
    if where == "routed":
        return P(*([Router(["work", "other"]), Func("work", [("a", tint())], [tint()], [mark(91)] + st + [Return(Var("a"))], "work"),
                    Func("other", [], [], [tx(56), Return()], "other")] + more))
    if where == "nested":
        return P(*([Exit(CallF("outer", [uin(6)])), Func("outer", [("a", tint())], [tint()], [
            If([(False, Var("a"), [ExprStmt(CallF("work"))])]), tx(57), Return(Int(1))]), Func("work", [], [], st + [Return()])] + more))
    if where == "whilefunc":
        return P(*([Decl(tint(), "w", uin(6)), While(False, Var("w"), [Asg("w", Bin("-", Var("w"), Int(1))), ExprStmt(CallF("work", [Var("w")]))]), mark(90), Exit(Int(1)),
                    Func("work", [("a", tint())], [], [put("a", Var("a"))] + st + [Return()])] + more))
    if where == "switchblock":
        return P(*([Switch(uin(6), [(Int(1), "one"), (Int(2), "two")]), Block("one", st + [mark(91), Exit(Int(1))]), Block("two", [tx(58), Exit(Int(2))])] + more))


def body(env, k):
    """(statements, functions): inner transactions and groups in all arrangements"""
    sub = Func("send", [("x", tint())], [tint()], [InnerTxn([("Amount", None, Var("x")), ("Receiver", None, bin_(2))]), Return(Bin("+", Var("x"), Int(1)))])
    subg = Func("sendg", [("x", tint())], [], [InnerGroup([tx(20, [("Fee", None, Var("x"))]), tx(21)]), Return()])
    send = lambda e: ExprStmt(CallF("sendn", [e]))
    subn = Func("sendn", [("x", tint())], [], [InnerTxn([("Amount", None, Var("x")), ("Note", None, bin_(2))]), Return()])
    if k == 0:
        return [tx(1, [("Fee", None, uin(0)), ("Note", None, bin_(0))])], []
    if k == 1:
        return [tx(1), mark(1), tx(2, [("Fee", None, Fld("itxn", "CreatedAssetID"))])], []
    if k == 2:
        return [InnerGroup([tx(1, [("Fee", None, uin(0))])])], []
    if k == 3:
        return [InnerGroup([tx(1), mark(1), tx(2), tx(3, [("Note", None, bin_(0))])])], []
    if k == 4:
        return [tx(1), InnerGroup([tx(2), tx(3)]), tx(4), InnerGroup([tx(5)]), tx(6)], []
    if k == 5:
        return [InnerGroup([If([(False, uin(0), [tx(1)])]), tx(2), If([(True, uin(1), [tx(3)])], [tx(4), tx(5)])])], []
    if k == 6:
        return [Decl(tint(), "q", Int(0)), InnerGroup([tx(0), While(False, Bin("<", Var("q"), uin(0)), [Asg("q", Bin("+", Var("q"), Int(1))), tx(1, [("Fee", None, Var("q"))])])])], []
    if k == 7:
        return [Decl(tint(), "m", uin(0)), InnerGroup([For("q", Int(0), Var("m"), [tx(1, [("Fee", None, Var("q"))])]), tx(2)])], []
    if k == 8:
        return [InnerGroup([send(uin(0)), tx(2), send(Int(5))]), send(Int(6))], [subn]
    if k == 9:
        return [Decl(tint(), "r", CallF("send", [uin(0)])), InnerGroup([Asg("r", CallF("send", [Var("r")])), tx(2, [("Fee", None, Var("r"))])]), put("r", Var("r"))], [sub]
    if k == 10:
        return [ExprStmt(CallF("sendg", [uin(0)])), tx(1), ExprStmt(CallF("sendg", [Int(2)]))], [subg]
    if k == 11:
        # a function that opens a group, called inside a group: fails
        return [If([(False, uin(0), [InnerGroup([ExprStmt(CallF("sendg", [uin(1)]))])])], [ExprStmt(CallF("sendg", [uin(1)]))])], [subg]
    if k == 12:
        return [InnerGroup([Decl(tint(), "g", uin(0)), Assert(Var("g")), tx(1, [("Fee", None, Var("g"))]), put("g", Var("g")), Asg("g", Bin("*", Var("g"), Int(2))), tx(2, [("Fee", None, Var("g"))])])], []
    if k == 13:
        return [If([(False, uin(0), [tx(1)]), (False, uin(1), [InnerGroup([tx(2), tx(3)])])], [tx(4)]), tx(5)], []
    if k == 14:
        return [InnerGroup([Note("# first"), tx(1), Note(""), Note("# second"), If([(False, uin(0), [send(uin(1)), tx(2)])])]), tx(3)], [subn]
    if k == 15:
        return [InnerTxn([]), InnerGroup([InnerTxn([]), tx(1)])], []


def structure(env, where, k):
    st, fs = body(env, k)
    env.run_program(place(where, st, fs), fuel=3)


def pair(env, where, k):
    """one arrangement after (or inside a conditional after) another"""
    ks = [0, 2, 3, 4, 5, 8, 10, 13, 14, 15]
    a, fa = body(env, k)
    b, fb = body(env, ks[env.choose(len(ks), "second")])
    if env.choose(2, "cond"):
        b = [If([(False, uin(5), b)], [tx(30)])]
    env.run_program(place(where, a + b, {f.name: f for f in fa + fb}.values()), fuel=3)


def failing(env, k):
    """a failing field expression is attributed to its line"""
    e = [Bin("-", uin(0), uin(1)), Bin("/", Int(8), uin(0)), Bin("+", uin(0), uin(1)), CallF("g", [uin(0)]), Op("btoi", [], [bin_(0)])][env.choose(5, "e")]
    t = InnerTxn([("TypeEnum", None, Enum("Pay")), ("Fee", None, uin(3)), ("Amount", None, e), ("Note", None, Op("substring3", [], [bin_(1), uin(4), uin(5)]))])
    G = Func("g", [("x", tint())], [tint()], [Assert(Var("x")), Return(Var("x"))])
    st = [t] if k == 0 else [InnerGroup([tx(1), t])] if k == 1 else [tx(0), InnerGroup([If([(False, uin(6), [t])]), tx(1)])]
    env.run_program(P(*(st + [Exit(Int(1)), G])))


def reads(env, k):
    """fields of the last inner transaction are those after the last submit"""
    r = lambda n: put(n, Fld("itxn", "CreatedAssetID"))
    q = lambda n: put(n, Fld("itxn", "LastLog"))
    if k == 0:
        st = [tx(1), r("a"), tx(2), r("b"), q("c")]
    elif k == 1:
        st = [tx(1), r("a"), InnerGroup([tx(2), r("x"), tx(3)]), r("b")]
    elif k == 2:
        st = [InnerGroup([tx(2), tx(3)]), put("g", Op("gitxn", [1, "CreatedAssetID"], [])), r("b")]
    elif k == 3:
        st = [InnerTxn([("Note", None, bin_(0))]), Decl(tint(), "a", Fld("itxn", "CreatedApplicationID")), InnerTxn([("Fee", None, Var("a"))]), put("a", Var("a")), r("b")]
    env.run_program(P(*(st + [Exit(Int(1))])))


BAD = [
    "inner_txn:\n    Foo: 1\nend", "inner_txn:\n    amount: 1\nend", "inner_txn:\n    FirstValid: 1\nend", "inner_txn:\n    TxID: \"a\"\nend", "inner_txn:\n    Amount\nend",
    "inner_txn:\n    Amount 1\nend", "inner_txn:\n    Amount = 1\nend", "inner_txn:\n    Amount: \nend", "inner_txn:\n    Amount: 1", "inner_txn\n    Amount: 1\nend",
    "inner_txn:\n    Amount: nope\nend", "inner_txn:\n    Amount: f()\nend", "inner_txn:\n    Amount: nothing()\nend", "inner_txn:\n    Amount: two()\nend",
    "inner_txn:\n    inner_txn:\n        Amount: 1\n    end\nend", "inner_txn:\n    int x = 1\n    Amount: x\nend", "inner_txn:\n    ApplicationArgs[1]: \"a\"\nend",
    "inner_txn:\n    ApplicationArgs[0]: \"a\"\n    ApplicationArgs[0]: \"b\"\nend", "inner_txn:\n    ApplicationArgs[-1]: \"a\"\nend", "inner_txn:\n    ApplicationArgs[x]: \"a\"\nend",
    "inner_txn:\n    ApplicationArgs[]: \"a\"\nend", "inner_txn:\n    ApplicationArgs[0] \"a\"\nend", "inner_txn: Amount: 1\nend", "inner_txn:\n    if 1:\n    Amount: 1\nend\nend",
    "inner_group:\n    inner_txn:\n        Amount: 1\n    end", "inner_group\n    inner_txn:\n        Amount: 1\n    end\nend", "inner_group:\n    Amount: 1\nend",
    "inner_group:\n    func g():\n        return\n    end\nend", "inner_group:\n    block g:\n        exit(1)\n    end\nend", "inner_txn:\n    TypeEnum: pay\nend", "inner_txn:\n    TypeEnum: Payment\nend",
    "inner_txn:\n    Amount: 1 2\nend", "inner_txn:\n    Amount: 1,\nend", "inner_txn:\n    ApplicationArgs[100]: \"a\"\nend", "inner_txn:\n    Note[0]: nope\nend",
]


def rejected(env, i):
    src = "#pragma version 8\n%s\nexit(1)\nfunc nothing():\n    return\nend\nfunc two() int, int:\n    return 1, 2\nend\n" % BAD[i]
    env.notes["source"] = src
    r = env.compile(src)
    env.trace = [("outcome", "accepted" if r.ok else "rejected", None)]
    if r.ok:
        env.fail("accepted: %r" % BAD[i])
    if r.kind not in ("ParseError", "CompileError"):
        env.fail("%r crashes the compiler: %s: %s" % (BAD[i], r.kind, r.err))
    env.reached()


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for f in FIELDS:
        out.append(("one/" + f, "one", dict(f=f)))
    for n in (2, 3, 5, 8):
        for form in FORMS:
            for s in range(0, len(FIELDS), 3 if deep else 17):
                out.append(("many/%d/%s/%d" % (n, form, s), "many", dict(start=s, n=n, form=form)))
    out.append(("enums", "enums", {}))
    for f in sorted(ARRAYS):
        for n in (1, 2, 3, 4) + ((8, 12) if f == "ApplicationArgs" else ()):
            for o in (0, 1):
                out.append(("arrays/%s/%d/%d" % (f, n, o), "arrays", dict(f=f, n=n, other=o)))
        out.append(("arrays_bad/" + f, "arrays_bad", dict(f=f)))
    for w in PLACES:
        for k in range(16):
            out.append(("structure/%s/%d" % (w, k), "structure", dict(where=w, k=k)))
    for w in PLACES if deep else ("main", "inner", "while", "func", "nested"):
        for k in (0, 2, 3, 4, 5, 8, 10, 13, 14, 15):
            out.append(("pair/%s/%d" % (w, k), "pair", dict(where=w, k=k)))
    for k in range(3):
        out.append(("failing/%d" % k, "failing", dict(k=k)))
    for k in range(4):
        out.append(("reads/%d" % k, "reads", dict(k=k)))
    for i in range(len(BAD)):
        out.append(("rejected/%d" % i, "rejected", dict(i=i)))
    return out
