"""C02 expressions"""
from .common import *
from vlib.avm import SPEC, TXN_TYPES, GLOBAL_TYPES, ARRAY_FIELDS, NAMED_INTS

ID = "C02"
BOUNDS = {
    "operators": "every unary and binary operator of the language, every combination of operand forms",
    "nesting": "expression trees up to depth 3 (thorough 4) chosen by solver selectors; every statement context",
    "opcode calls": "every function opcode of the language spec with every field name; integer immediates symbolic 0..255 "
                    "where the opcode's range is 0..255",
    "fields": "every field of Txn, Gtxn, Itxn, Global; group index literal 0..15 symbolic, +/- symbolic, computed; array "
              "index literal 0..255 symbolic or computed",
    "multiple results": "2..4 names, '_' at any position",
    "run-time values": "all uint64 / byte strings up to 4096 bytes",
}
ASSUMPTIONS = COMMON_ASSUMPTIONS + [
    "returned expressions are evaluated last first (as compiled); C02 orders operands and arguments only",
]

BINOPS = [n for n in SPEC if SPEC[n].get("Args") in ("UU", "..", "BB") and not n.isidentifier() and n not in ("!",)]
UNOPS = ["!", "~", "b~"]

# called as statements of their own or not function-like
NOT_CALLED = {
    "err", "return", "b", "bz", "bnz", "callsub", "retsub", "switch", "match", "proto", "frame_dig", "frame_bury",
    "bury", "popn", "dupn", "pop", "dup", "dup2", "dig", "swap", "cover", "uncover", "assert",
    "load", "store", "loads", "stores", "gload", "gloads", "gloadss",
    "intcblock", "bytecblock", "intc", "bytec", "pushbytes", "pushint", "pushbytess", "pushints",
    "intc_0", "intc_1", "intc_2", "intc_3", "bytec_0", "bytec_1", "bytec_2", "bytec_3",
    "itxn_begin", "itxn_field", "itxn_submit", "itxn_next",
    "txn", "global", "gtxn", "txna", "gtxna", "gtxns", "gtxnsa", "txnas", "gtxnas", "gtxnsas",
    "itxn", "itxna", "itxnas", "gitxn", "gitxna", "gitxnas",
}
NAMED_IMMS = {"ecdsa_verify", "ecdsa_pk_decompress", "ecdsa_pk_recover", "base64_decode", "json_ref", "vrf_verify", "block"}
# (opcodes whose immediate names are not in the language spec cannot be called by name)
CALLED = [n for n in SPEC if n not in NOT_CALLED and n not in NAMED_IMMS and (n.isidentifier())]



def fu(i, e):
    """int operand with an effect"""
    return CallF("fu", [Int(i), e])


def fb(i, e):
    return CallF("fb", [Int(i), e])


FU = Func("fu", [("k", tint()), ("v", tint())], [tint()], [put("u", Var("k")), Return(Var("v"))])
FB = Func("fb", [("k", tint()), ("v", tbytes())], [tbytes()], [put("b", Var("k")), Return(Var("v"))])


def oper(env, kind, i, name):
    """operand forms; i numbers the operand"""
    if kind == "U":
        k = env.choose(8, name)
        return [lambda: uin(i), lambda: fu(i, uin(i)), lambda: Int(env.sym_int("lit%d" % i, 0, 2 ** 64 - 1)),
                lambda: Var("v%d" % i), lambda: Cst("CN%d" % i), lambda: Bin("+", uin(i), Int(7)),
                lambda: Un("!", uin(i)), lambda: Op("len", [], [bin_(i)])][k]()
    k = env.choose(6, name)
    return [lambda: bin_(i), lambda: fb(i, bin_(i)), lambda: Str("ab%d" % i), lambda: Var("b%d" % i),
            lambda: Cst("CS%d" % i), lambda: Op("itob", [], [uin(i)])][k]()


PRE = [ConstDef("int", "CN0", "500", 500), ConstDef("int", "CN1", "3", 3), ConstDef("bytes", "CS0", '"zero"', b"zero"),
       ConstDef("bytes", "CS1", '"o"', b"o"),
       Decl(tint(), "v0", uin(6)), Decl(tint(), "v1", uin(7)), Decl(tbytes(), "b0", bin_(6)), Decl(tbytes(), "b1", bin_(7))]


def binop(env, op):
    sig = SPEC[op]["Args"]
    if sig == "..":
        sig = ["UU", "BB"][env.choose(2, "kinds")]
    a = oper(env, sig[0], 0, "a")
    b = oper(env, sig[1], 1, "b")
    env.run_program(prog(*(PRE + [put("r", Bin(op, a, b)), Exit(Int(1)), FU, FB])))


def unop(env, op):
    kind = SPEC[op]["Args"]
    a = oper(env, kind, 0, "a")
    ctx = env.choose(3, "ctx")
    e = Un(op, a)
    if ctx == 1:
        e = Un(op, Bin("b+", a, bin_(3))) if kind == "B" else Un(op, Bin("-", a, uin(3)))
    elif ctx == 2:
        e = Bin("b^", Un(op, a), bin_(2)) if kind == "B" else Bin("^", uin(2), Un(op, a))
    env.run_program(prog(*(PRE + [put("r", e), Exit(Int(1)), FU, FB])))


def opcall(env, names, alias=None):
    name = names[env.choose(len(names), "op")]
    o = SPEC[name]
    nimm = max(o["Size"] - 1, 0)
    sig = o.get("Args", "")
    if o.get("ArgEnum"):
        imms = [o["ArgEnum"][env.choose(len(o["ArgEnum"]), "imm")]]
    elif name == "substring":
        s = env.sym_int("i0", 0, 255)
        e = env.sym_int("i1", 0, 255)
        env.assume(s <= e)
        imms = [s, e]
    else:
        imms = [env.sym_int("i%d" % j, 0, 255) for j in range(nimm)]
    args = []
    for j, ch in enumerate(sig):
        if ch == ".":
            ch = "UB"[env.choose(2, "any%d" % j)] if name not in ("balance", "min_balance") else "B"
        form = env.choose(2, "form%d" % j) if j < 2 else 1
        args.append((fu(j, uin(j)) if form else uin(j)) if ch == "U" else (fb(j, bin_(j)) if form else bin_(j)))
    rimms = imms
    if not o.get("ArgEnum") and name not in avm.U8_IMMS:
        rimms = [str(i) for i in imms]
    e = Op(name, rimms, args, imm_text=[str(i) for i in imms])
    ret = o.get("Returns", "")[::-1]
    types = [tint() if ch == "U" else tbytes() for ch in ret]
    if not ret:
        st = [ExprStmt(e)]
    elif len(ret) == 1:
        st = [put("r", e)] if env.choose(2, "use") == 0 else [Decl(types[0], "r0", e), put("r", Var("r0"))]
    else:
        st = [Decl(t, "r%d" % j) for j, t in enumerate(types)]
        st += [Asg(["r%d" % j for j in range(len(ret))], e)]
        st += [put("r%d" % j, Var("r%d" % j)) for j in range(len(ret))]
    env.run_program(prog(*(PRE + [mark(0)] + st + [mark(1), Exit(Int(1)), FU, FB])))


def skips(env, case):
    """several results assigned with some of them discarded"""
    cases = [("divmodw", "UUUU", 4), ("mulw", "UU", 2), ("app_global_get_ex", "UB", 2), ("box_get", "B", 2), ("expw", "UU", 2)]
    name, sig, n = cases[case]
    args = [fu(j, uin(j)) if ch == "U" else fb(j, bin_(j)) for j, ch in enumerate(sig)]
    imms = []
    ret = SPEC[name]["Returns"][::-1]
    names, st = [], []
    for j in range(n):
        if env.choose(2, "skip%d" % j):
            names.append("_")
        else:
            names.append("r%d" % j)
            st.append(Decl(tint() if ret[j] == "U" else tbytes(), "r%d" % j))
    st.append(Asg(names, Op(name, imms, args)))
    st += [put(x, Var(x)) for x in names if x != "_"]
    env.run_program(prog(*(st + [mark(3), Exit(Int(1)), FU, FB])))


def field_plain(env, kind, lo, hi):
    fields = sorted(f for f in (GLOBAL_TYPES if kind == "global" else TXN_TYPES) if f not in ARRAY_FIELDS or kind == "global")[lo:hi]
    f = fields[env.choose(len(fields), "field")]
    gi = None
    st = []
    if kind == "gtxn":
        gi = index_form(env)
    env.run_program(prog(*(PRE + st + [mark(0), put("r", Fld(kind, f, gi)), Exit(Int(1)), FU, FB])))


def index_form(env):
    k = env.choose(6, "gi")
    if k == 0:
        return Int(env.sym_int("g", 0, 15))
    if k in (1, 2):
        return ("+-"[k - 1], env.sym_int("g", 0, 255))
    return [Var("v0"), Bin("+", Var("v0"), Int(env.sym_int("g", 0, 2 ** 64 - 1))), fu(5, uin(4))][k - 3]


def field_array(env, kind):
    fields = sorted(ARRAY_FIELDS)
    f = fields[env.choose(len(fields), "field")]
    gi = index_form(env) if kind == "gtxn" else None
    k = env.choose(5, "ai")
    ai = [lambda: Int(env.sym_int("a", 0, 255)), lambda: Var("v1"),
          lambda: Bin("+", Var("v1"), Int(env.sym_int("a", 0, 2 ** 64 - 1))),
          lambda: fu(6, uin(5)), lambda: Op("len", [], [fb(7, bin_(2))])][k]()
    env.run_program(prog(*(PRE + [mark(0), put("r", Fld(kind, f, gi, ai)), Exit(Int(1)), FU, FB])))


def tree(env, d, tag, kind):
    """expression of the given kind, shape by solver selectors"""
    n = [0]

    def go(d, tag, kind):
        i = n[0] % 6
        n[0] += 1
        if d == 0:
            k = env.choose(2, tag)
            if kind == "U":
                return [uin(i), fu(n[0], uin(i))][k]
            return [bin_(i), fb(n[0], bin_(i))][k]
        if kind == "U":
            k = env.choose(6, tag)
            if k == 0:
                return Bin("-", go(d - 1, tag + "l", "U"), go(d - 1, tag + "r", "U"))
            if k == 1:
                return Bin("<", go(d - 1, tag + "l", "U"), go(0, tag + "r", "U"))
            if k == 2:
                return Un("!", go(d - 1, tag + "l", "U"))
            if k == 3:
                return Op("btoi", [], [go(d - 1, tag + "l", "B")])
            if k == 4:
                return CallF("fu", [go(0, tag + "l", "U"), go(d - 1, tag + "r", "U")])
            return Bin("==", go(0, tag + "l", "B"), go(d - 1, tag + "r", "B"))
        k = env.choose(4, tag)
        if k == 0:
            return Bin("b-", go(d - 1, tag + "l", "B"), go(0, tag + "r", "B"))
        if k == 1:
            return Concat(go(0, tag + "l", "B"), go(d - 1, tag + "r", "B"), bin_(5))
        if k == 2:
            return Op("extract3", [], [go(d - 1, tag + "l", "B"), go(0, tag + "m", "U"), uin(5)])
        return Fld("txn", "Accounts", ai=go(d - 1, tag + "l", "U"))
    return go(d, tag, kind)


def trees(env, top, depth):
    k = ["U", "B"][top % 2]
    env.run_program(prog(*([mark(0), put("r", tree(env, depth, "t", k)), Exit(Int(1)), FU, FB])))


CTX = ["exit", "assign", "decl", "if", "elif", "while", "assert", "switch", "option", "arg", "return", "itxn", "push",
       "cond-not", "args2", "array"]


def context(env, ctx, depth=2):
    """every place an expression can stand in"""
    e = tree(env, depth, "t", "U")
    m = mark(1)
    more = []
    if ctx == "exit":
        st = [Exit(e)]
    elif ctx == "assign":
        st = [Decl(tint(), "x"), Asg("x", e), put("x", Var("x")), Exit(Int(1))]
    elif ctx == "decl":
        st = [Decl(tint(), "x", e), put("x", Var("x")), Exit(Int(1))]
    elif ctx == "if":
        st = [If([(False, e, [m])], [mark(2)]), Exit(Int(1))]
    elif ctx == "cond-not":
        st = [If([(True, e, [m])], [mark(2)]), Exit(Int(1))]
    elif ctx == "elif":
        st = [If([(False, uin(9), [m]), (False, e, [mark(2)])]), Exit(Int(1))]
    elif ctx == "while":
        st = [While(False, e, [m, Break()]), Exit(Int(1))]
    elif ctx == "assert":
        st = [Assert(e), m, Exit(Int(1))]
    elif ctx == "switch":
        e = Bin("+", uin(0), Un("!", uin(1)))
        st = [Switch(e, [(uin(9), "one"), (uin(8), "two")], "one"), Block("one", [mark(1), Exit(Int(1))]),
              Block("two", [mark(2), Exit(Int(1))])]
    elif ctx == "option":
        st = [Switch(uin(9), [(e, "one"), (uin(8), "two")], "one"), Block("one", [mark(1), Exit(Int(1))]),
              Block("two", [mark(2), Exit(Int(1))])]
    elif ctx == "arg":
        st = [put("x", CallF("g", [e])), Exit(Int(1))]
        more = [Func("g", [("x", tint())], [tint()], [mark(4), Return(Var("x"))])]
    elif ctx == "args2":
        st = [put("x", CallF("g", [e, fu(77, uin(9))])), Exit(Int(1))]
        more = [Func("g", [("x", tint()), ("y", tint())], [tint()], [mark(4), Return(Bin("-", Var("x"), Var("y")))])]
    elif ctx == "return":
        st = [put("x", CallF("g", [])), Exit(Int(1))]
        more = [Func("g", [], [tint()], [mark(4), Return(e)])]
    elif ctx == "itxn":
        st = [InnerTxn([("Fee", None, e), ("Amount", None, fu(50, uin(9)))]), Exit(Int(1))]
    elif ctx == "array":
        st = [put("x", Fld("gtxn", "ApplicationArgs", e, fu(51, uin(9)))), Exit(Int(1))]
    else:
        st = [Decl(tint(), "x"), ExprStmt(Raw("push(%s)" % e.s(), lambda c: (_ for _ in ()).throw(AssertionError()))),
              Asg("x", Raw("pop()", None)), put("x", Var("x")), Exit(Int(1))]
        box = []

        class P(ExprStmt):
            def run(self, c):
                self.at(c)
                box.append(self.e2.ev(c))
        st[1] = P(st[1].e)
        st[1].e2 = e
        st[2] = Asg("x", Raw("pop()", lambda c: box.pop()))
    env.run_program(prog(*([mark(0)] + st + [FU, FB] + more)))


def enums(env):
    """names of AVM constants as operands"""
    names = ["NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication", "Pay", "Acfg", "Axfer",
             "Afrz", "Appl"]
    n = names[env.choose(len(names), "n")]
    k = env.choose(3, "k")
    e = Enum(n)
    st = [[put("r", Bin("==", Fld("txn", "OnCompletion"), e))], [Assert(Bin("!=", e, Fld("txn", "TypeEnum"))), mark(1)],
          [Decl(tint(), "x", e), put("x", Bin("*", Var("x"), Int(3)))]][k]
    env.run_program(prog(*(st + [Exit(e)])))


def push_pop(env):
    """push leaves its arguments on the stack in order; pop() takes the top one"""
    n = env.choose(4, "n") + 1
    vals = [fu(i, uin(i)) if env.choose(2, "f%d" % i) else uin(i) for i in range(n)]
    box = []

    class P(ExprStmt):
        def run(self, c):
            self.at(c)
            box[:] = [v.ev(c) for v in vals]
    st = [P(Raw("push(%s)" % ", ".join(v.s() for v in vals), None))]
    for i in range(n):
        st += [Decl(tint(), "x%d" % i, Raw("pop()", lambda c: box.pop()))]
    st += [put("x", Var("x%d" % i)) for i in range(n)]
    env.run_program(prog(*(st + [Exit(Int(1)), FU])))


def jobs(tier):
    out = []
    deep = tier == "thorough"
    for op in BINOPS:
        out.append(("binop/" + op, "binop", dict(op=op)))
    for op in UNOPS:
        out.append(("unop/" + op, "unop", dict(op=op)))
    simple = [n for n in CALLED]
    for i in range(0, len(simple), 4):
        out.append(("opcall/" + ",".join(simple[i:i + 4]), "opcall", dict(names=simple[i:i + 4])))
    for c in range(5):
        out.append(("skips/%d" % c, "skips", dict(case=c)))
    for kind in ("txn", "gtxn", "itxn", "global"):
        n = len(GLOBAL_TYPES) if kind == "global" else len([f for f in TXN_TYPES if f not in ARRAY_FIELDS])
        step = 8 if kind == "gtxn" else 16
        for lo in range(0, n, step):
            out.append(("field/%s/%d" % (kind, lo), "field_plain", dict(kind=kind, lo=lo, hi=lo + step)))
        if kind != "global":
            out.append(("array/" + kind, "field_array", dict(kind=kind)))
    for d in ((1, 2, 3) if deep else (1, 2)):
        for top in (0, 1):
            out.append(("tree/%d/%d" % (d, top), "trees", dict(top=top, depth=d)))
    for c in CTX:
        out.append(("context/" + c, "context", dict(ctx=c, depth=2 if deep else 1)))
    out.append(("enums", "enums", {}))
    out.append(("push_pop", "push_pop", {}))
    return out
