"""Independent parser of the Tealish language (written from the language guide).
parse(lines) returns, for each source line, its canonical spelling: every token
of the line once, in order, with fixed spacing.  It raises Reject for texts that
are not programs: broken structure, unknown names, left-over characters.
It works character by character, on plain and on symbolic text."""
from . import avm

SPEC = avm.SPEC
TXN_FIELDS = set(SPEC["txn"]["ArgEnum"])
ITXN_SET = set(SPEC["itxn_field"]["ArgEnum"])
GLOBAL_FIELDS = set(SPEC["global"]["ArgEnum"])
ENUMS = {"NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication", "Pay", "Acfg", "Axfer", "Afrz", "Appl"}
STDLIB = {"Error", "Convert", "Cast", "UncheckedCast", "EnsureType", "ToBytes", "FromBytes", "SizeOf", "Rpad", "Lpad", "Concat",
          "Address", "ARC28Event"}
TYPES = {"int", "bytes", "bigint", "addr", "uint8", "uint64"}
EXTRA_OPS = {"push", "pop", "bzero", "method"}
BINOPS = ["b==", "b!=", "b>=", "b<=", "==", "!=", ">=", "<=", "&&", "||", "b+", "b-", "b/", "b*", "b%", "b<", "b>", "b|", "b&", "b^",
          "+", "-", "*", "/", "%", "<", ">", "|", "&", "^"]

LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()
DIGITS = "0123456789"
HEX = DIGITS + "abcdefABCDEF"
BLANKS = " \t\r\x0b\x0c\xa0\u2028"
WORD = LOWER + UPPER + DIGITS + "_"


class Reject(Exception):
    pass


class Text:
    """cursor over one line"""

    def __init__(self, s, p):
        self.s, self.i, self.p = s, 0, p

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in BLANKS:
            self.i += 1

    def peek(self, chars):
        return self.i < len(self.s) and self.s[self.i] in chars

    def lit(self, w):
        if self.s[self.i:self.i + len(w)] == w:
            self.i += len(w)
            return True
        return False

    def need(self, w, what):
        if not self.lit(w):
            raise Reject("%r expected in %s" % (w, what))

    def word(self, first, what="name"):
        j = self.i
        if not self.peek(first):
            raise Reject("%s expected" % what)
        while self.peek(WORD):
            self.i += 1
        return self.s[j:self.i]

    def end(self, what):
        self.ws()
        if self.i < len(self.s):
            raise Reject("text left over after %s" % what)

    def string(self):
        """a string literal, as written"""
        q = self.s[self.i]
        j = self.i
        self.i += 1
        while True:
            if self.i >= len(self.s):
                raise Reject("unterminated string")
            c = self.s[self.i]
            self.i += 1
            if c == q:
                return self.s[j:self.i]
            if c == "\\":
                if self.i >= len(self.s):
                    raise Reject("unterminated string")
                self.i += 1


def outside(s):
    """(index, character) outside string literals"""
    i, q = 0, None
    while i < len(s):
        c = s[i]
        if q is not None:
            if c == "\\":
                i += 2
                continue
            if c == q:
                q = None
        elif c in "\"'":
            q = c
        else:
            yield i, c
        i += 1


def clean(line):
    """without surrounding blanks and inline comment"""
    s = line.strip()
    if s[:1] == "#":
        return s
    for i, c in outside(s):
        if c == "#":
            return s[:i].rstrip()
    return s


class Scope:
    def __init__(self, up, kind):
        self.up, self.kind = up, kind
        self.vars, self.consts, self.funcs, self.blocks = {}, {}, {}, {}
        self.wait = []

    def find(self, table, name):
        s = self
        while s is not None:
            for k, v in getattr(s, table).items():
                if k == name:
                    return v
            s = s.up
        return None


class Parser:
    def __init__(self, lines, types_off=False):
        self.lines = lines
        self.out = []
        self.n = 0
        self.structs = {}
        self.scope = Scope(None, "program")
        self.later = []         # names that may be defined further down
        self.lenient = False    # the language guide does not say whether the program is valid

    # ---- lines ----
    def at_end(self):
        return self.n == len(self.lines)

    def peek(self):
        if self.at_end():
            raise Reject("missing end")
        return clean(self.lines[self.n])

    def emit(self, text):
        self.out.append(text)
        self.n += 1

    # ---- program structure ----
    def parse(self):
        structs = True
        exited = False
        while not self.at_end():
            kind = self.statement("program", structs=structs)
            if kind not in ("version", "blank", "comment", "struct"):
                structs = False
            exited = self.after_exit(kind, exited)
        for f in self.later:
            f()
        return self.out

    def after_exit(self, kind, exited):
        if exited:
            if kind not in ("func", "block", "comment", "blank"):
                raise Reject("code after the exit statement")
        elif kind in ("func", "block"):
            raise Reject("definition that execution falls into")
        return exited or kind in ("exit", "jump", "switch", "router")

    def statement(self, where, structs=False, func=None, loop=False, decorated=False):
        """one statement; where: program/block/func/inline/group"""
        s = self.peek()
        w = self.leading(s)
        if s == "":
            self.emit("")
            return "blank"
        if s[:1] == "#":
            if s[:7] == "#pragma":
                return self.version(s)
            self.emit(s)
            return "comment"
        if s[:1] == "@":
            return self.decorated(where, func)
        if w == "block" and s[5:6] == " ":
            if where not in ("program", "block"):
                raise Reject("block inside a statement")
            return self.block(s)
        if w == "func" and s[4:5] == " ":
            if where not in ("program", "block", "func"):
                raise Reject("func inside a statement")
            return self.func(s)
        if w == "struct" and s[6:7] == " ":
            if where != "program" or not structs:
                raise Reject("struct definition not at the top")
            return self.struct(s)
        if w == "if" and s[2:3] == " ":
            return self.if_(s, func, loop)
        if w == "while" and s[5:6] == " ":
            return self.while_(s, func)
        if w == "for" and s[3:4] == " ":
            return self.for_(s, func, loop)
        if w == "switch" and s[6:7] == " ":
            return self.switch(s)
        if w == "router":
            return self.router(s)
        if w == "teal":
            return self.teal(s)
        if w == "inner_group":
            return self.group(s, func, loop)
        if w == "inner_txn":
            return self.inner(s)
        return self.line(s, w, func, loop)

    def leading(self, s):
        i = 0
        while i < len(s) and s[i] in WORD:
            i += 1
        return s[:i]

    def version(self, s):
        if self.n != 0:
            raise Reject("#pragma not on the first line")
        t = Text(s, self)
        t.need("#pragma version ", "pragma")
        d = t.word(DIGITS, "version")
        for c in d:
            if not c in DIGITS:
                raise Reject("version")
        t.end("#pragma")
        self.emit("#pragma version " + d)
        return "version"

    def body(self, where, stop=("end",), func=None, loop=False):
        kinds = []
        while True:
            s = self.peek()
            if any(s == x for x in stop if not x.endswith(" ")) or any(s[:len(x)] == x for x in stop if x.endswith(" ")):
                return kinds
            kinds.append(self.statement(where, func=func, loop=loop))

    def end(self):
        self.emit("end")

    def block(self, s):
        t = Text(s, self)
        t.need("block ", "block")
        name = t.word(WORD)
        t.need(":", "block")
        t.end("block")
        if name in list(self.scope.blocks):
            self.lenient = True
        self.scope.blocks[name] = True
        self.emit("block " + name + ":")
        outer = self.scope
        self.scope = Scope(outer, "block")
        exited = False
        while self.peek() != "end":
            exited = self.after_exit(self.statement("block"), exited)
        if not exited:
            raise Reject("block without an exit statement")
        self.end()
        self.scope = outer
        return "block"

    def type_(self, t, struct_ok=True):
        if t.lit("box<"):
            name = t.word(UPPER, "struct")
            t.need(">", "type")
            for k, v in self.structs.items():
                if k == name:
                    return "box<" + name + ">", v
            raise Reject("unknown struct")
        name = t.word(LOWER + UPPER, "type")
        if t.lit("["):
            if name != "bytes" and name != "uint8":
                raise Reject("array type")
            d = t.word(DIGITS, "size")
            for c in d:
                if not c in DIGITS:
                    raise Reject("size")
            t.need("]", "type")
            return name + "[" + d + "]", None
        if name in TYPES:
            return name, None
        for k, v in self.structs.items():
            if k == name:
                return name, v
        raise Reject("unknown type")

    def func(self, s, public=None):
        t = Text(s, self)
        t.need("func ", "func")
        name = t.word(WORD)
        t.need("(", "func")
        args = []
        t.ws()
        while not t.lit(")"):
            if args:
                t.need(",", "func arguments")
                t.ws()
            a = t.word(LOWER, "argument name")
            t.ws()
            t.need(":", "argument")
            t.ws()
            ty, st = self.type_(t)
            args.append((a, ty, st))
            t.ws()
        rets = []
        t.ws()
        while not t.lit(":"):
            if rets:
                t.need(",", "return types")
                t.ws()
            rets.append(self.type_(t)[0])
            t.ws()
        t.end("func")
        if name in list(self.scope.funcs):
            self.lenient = True
        self.scope.funcs[name] = public
        self.emit("func " + name + "(" + ", ".join(a + ": " + ty for a, ty, _ in args) + ")" + (" " + ", ".join(rets) if rets else "") + ":")
        outer = self.scope
        self.scope = Scope(outer, "func")
        for a, ty, st in args:
            self.scope.vars[a] = st
        last = None
        while self.peek() != "end":
            k = self.statement("func", func=len(rets))
            if k == "func":
                if last != "return":
                    raise Reject("definition that execution falls into")
            elif k not in ("comment", "blank"):
                last = k
        if last != "return":
            raise Reject("func without final return")
        self.end()
        self.scope = outer
        return "func"

    def decorated(self, where, func):
        if where not in ("program", "block", "func"):
            raise Reject("func inside a statement")
        public = False
        while True:
            s = self.peek()
            if s[:5] == "func ":
                return self.func(s, public)
            if s[:1] == "@":
                t = Text(s, self)
                t.i = 1
                name = t.word(LOWER, "decorator")
                t.need("(", "decorator")
                t.ws()
                out = "@" + name + "("
                if not t.lit(")"):
                    key = t.word(WORD)
                    t.ws()
                    t.need("=", "decorator")
                    t.ws()
                    value = t.word(WORD)
                    t.ws()
                    t.need(")", "decorator")
                    out += key + "=" + value
                    if name == "public":
                        if key != "OnCompletion" or value not in (
                                "NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication", "CreateApplication"):
                            raise Reject("parameter of @public")
                t.end("decorator")
                if name == "public":
                    public = True
                self.emit(out + (")" if out[-1:] != ")" else ""))
            elif s == "" or s[:1] == "#" and s[:7] != "#pragma":
                self.emit(s)
            else:
                raise Reject("func expected after a decorator")

    def struct(self, s):
        t = Text(s, self)
        t.need("struct ", "struct")
        name = t.word(UPPER, "struct name")
        t.need(":", "struct")
        t.end("struct")
        self.emit("struct " + name + ":")
        fields = {}
        while self.peek() != "end":
            s = self.peek()
            if s[:1] == "#":
                if s[:7] == "#pragma":
                    raise Reject("#pragma not on the first line")
                self.emit(s)
                continue
            t = Text(s, self)
            j = 0
            if not t.peek(LOWER):
                raise Reject("field name")
            while t.peek(WORD + "-"):
                t.i += 1
            f = t.s[j:t.i]
            t.need(":", "struct field")
            t.ws()
            ty, _ = self.type_(t)
            t.end("struct field")
            fields[f] = ty
            self.emit(f + ": " + ty)
        self.end()
        self.structs[name] = fields
        return "struct"

    def condition(self, t, head):
        t.ws()
        j = t.i
        neg = ""
        if t.s[t.i:t.i + 4] == "not ":
            t.i += 4
            neg = "not "
        e = self.expr(t)
        t.ws()
        t.need(":", head)
        t.end(head)
        return head + " " + neg + e + ":"

    def if_(self, s, func, loop):
        t = Text(s, self)
        t.i = 3
        self.emit(self.condition(t, "if"))
        seen_else = False
        while True:
            self.body("inline", ("end", "elif ", "else:"), func, loop)
            s = self.peek()
            if s == "end":
                break
            if seen_else:
                raise Reject("branch after else")
            if s[:5] == "elif ":
                t = Text(s, self)
                t.i = 5
                self.emit(self.condition(t, "elif"))
            else:
                seen_else = True
                self.emit("else:")
        self.end()
        return "if"

    def while_(self, s, func):
        t = Text(s, self)
        t.i = 6
        outer = self.scope
        self.scope = Scope(outer, "while")
        self.emit(self.condition(t, "while"))
        self.body("inline", func=func, loop=True)
        self.end()
        self.scope = outer
        return "while"

    def for_(self, s, func, loop):
        t = Text(s, self)
        t.i = 4
        t.ws()
        name = t.word(LOWER + "_")
        t.ws()
        t.need("in ", "for")
        t.ws()
        outer = self.scope
        self.scope = Scope(outer, "for")
        if name != "_":
            if any(name in list(s.vars) for s in self.chain(outer)):
                self.lenient = True
            self.scope.vars[name] = None
        bounds = []
        for k in range(2):
            x = t.word(WORD, "bound")
            b = Text(x, self)
            x = self.expr(b)
            b.end("bound")
            bounds.append(x)
            t.need(":", "for")
        t.end("for")
        self.emit("for " + name + " in " + bounds[0] + ":" + bounds[1] + ":")
        self.body("inline", func=func, loop=loop)
        self.end()
        self.scope = outer
        return "for"

    def target(self, t, table, what):
        name = t.word(WORD, what)
        scope = self.scope

        def check():
            if scope.find(table, name) is None:
                raise Reject("unknown %s" % what)
        self.later.append(check)
        return name

    def switch(self, s):
        t = Text(s, self)
        t.i = 7
        e = self.expr(t)
        t.ws()
        t.need(":", "switch")
        t.end("switch")
        self.emit("switch " + e + ":")
        seen = False
        while self.peek() != "end":
            t = Text(self.peek(), self)
            if t.lit("else:"):
                if seen:
                    raise Reject("two else targets")
                seen = True
                e = "else"
            else:
                e = self.expr(t)
                t.ws()
                t.need(":", "switch option")
            t.ws()
            name = self.target(t, "blocks", "block")
            t.end("switch option")
            self.emit(e + ": " + name)
        self.end()
        return "switch"

    def router(self, s):
        t = Text(s, self)
        t.need("router:", "router")
        t.end("router")
        self.emit("router:")
        routes = []
        while self.peek() != "end":
            t = Text(self.peek(), self)
            name = t.word(WORD, "func")
            if name in routes:
                self.lenient = True
            routes.append(name)
            t.end("route")
            scope = self.scope

            def check(scope=scope, name=name):
                f = scope.find("funcs", name)
                if not f:
                    raise Reject("route to unknown or non-public func")
            self.later.append(check)
            self.emit(name)
        self.end()
        return "router"

    def teal(self, s):
        t = Text(s, self)
        t.need("teal:", "teal")
        t.end("teal")
        self.emit("teal:")
        while self.peek() != "end":
            if ":" in self.peek():
                self.lenient = True
            self.emit(self.peek())
        self.end()
        return "teal"

    def group(self, s, func, loop):
        t = Text(s, self)
        t.need("inner_group:", "inner_group")
        t.end("inner_group")
        self.emit("inner_group:")
        self.body("inline", func=func, loop=loop)
        self.end()
        return "group"

    def inner(self, s):
        t = Text(s, self)
        t.need("inner_txn:", "inner_txn")
        t.end("inner_txn")
        self.emit("inner_txn:")
        counts = {}
        while self.peek() != "end":
            s = self.peek()
            if s[:1] == "#":
                if s[:7] == "#pragma":
                    raise Reject("#pragma not on the first line")
                self.emit(s)
                continue
            t = Text(s, self)
            f = t.word(UPPER, "field")
            if f not in ITXN_SET:
                raise Reject("unknown field")
            i = ""
            if t.lit("["):
                d = t.word(DIGITS, "index")
                for c in d:
                    if not c in DIGITS:
                        raise Reject("index")
                t.need("]", "field")
                i = "[" + d + "]"
            t.ws()
            t.need(":", "field")
            t.ws()
            e = self.expr(t)
            t.end("field")
            self.emit(f + i + ": " + e)
        self.end()
        return "inner"

    # ---- one-line statements ----
    def line(self, s, w, func, loop):
        t = Text(s, self)
        t.i = len(w)
        after = s[len(w):len(w) + 1]
        if w == "const" and after == " ":
            t.ws()
            ty = t.word(LOWER, "type")
            if ty not in ("int", "bytes", "bigint", "addr"):
                raise Reject("const type")
            t.ws()
            name = t.word(UPPER, "const name")
            t.ws()
            t.need("=", "const")
            t.ws()
            if t.peek('"'):
                v = t.string()
            elif t.lit("0x"):
                v = "0x" + t.word(HEX)
                for c in v[2:]:
                    if not c in HEX:
                        raise Reject("hex literal")
            else:
                v = t.word(DIGITS)
                for c in v:
                    if not c in DIGITS:
                        raise Reject("number")
            t.end("const")
            self.scope.consts[name] = True
            self.emit("const " + ty + " " + name + " = " + v)
            return "const"
        if w == "jump" and after == " ":
            t.ws()
            name = self.target(t, "blocks", "block")
            t.end("jump")
            self.emit("jump " + name)
            return "jump"
        if w == "return":
            if func is None:
                raise Reject("return outside a function")
            vals = []
            t.ws()
            while t.i < len(t.s):
                if vals:
                    t.need(",", "return")
                    t.ws()
                vals.append(self.expr(t))
                t.ws()
            if len(vals) != func:
                raise Reject("number of returned values")
            self.emit("return" + (" " + ", ".join(vals) if vals else ""))
            return "return"
        if s == "break":
            if not loop:
                raise Reject("break outside while")
            self.emit("break")
            return "break"
        if w == "exit" and after == "(":
            t.i += 1
            e = self.expr(t)
            t.ws()
            t.need(")", "exit")
            t.end("exit")
            self.emit("exit(" + e + ")")
            return "exit"
        if w == "assert" and after == "(":
            t.i += 1
            e = self.expr(t)
            t.ws()
            m = ""
            if t.lit(","):
                t.ws()
                if not t.peek('"'):
                    raise Reject("assert message")
                m = ", " + t.string()
                t.ws()
            t.need(")", "assert")
            t.end("assert")
            self.emit("assert(" + e + m + ")")
            return "assert"
        if w == "box" and after == "<":
            t.i += 1
            name = t.word(UPPER, "struct")
            st = None
            for k, v in self.structs.items():
                if k == name:
                    st = v
            if st is None:
                raise Reject("unknown struct")
            t.need(">", "box")
            t.ws()
            var = t.word(LOWER, "variable")
            t.ws()
            t.need("=", "box")
            t.ws()
            m = t.word(UPPER, "box method")
            if m not in ("Box", "OpenBox", "CreateBox"):
                raise Reject("box method")
            t.need("(", "box")
            self.declare(var, st)
            e = self.expr(t)
            t.ws()
            t.need(")", "box")
            t.end("box")
            self.emit("box<" + name + "> " + var + " = " + m + "(" + e + ")")
            return "box"
        if after == "(":
            t.i = 0
            e = self.call(t)
            t.end("call")
            self.emit(e)
            return "call"
        # declaration, assignment
        t.i = 0
        if after == ".":
            name = t.word(LOWER, "variable")
            st = self.var(name)
            t.need(".", "field assignment")
            f = t.word(LOWER, "field")
            self.struct_field(st, f)
            t.ws()
            t.need("=", "field assignment")
            e = self.expr(t)
            t.end("assignment")
            self.emit(name + "." + f + " = " + e)
            return "assign"
        first = t.i
        if after == "[":
            ty, st = self.type_(t)
            return self.decl(t, ty, st)
        k = len(w)
        j = k
        while j < len(s) and s[j] in " \t":
            j += 1
        if j > k and j < len(s) and s[j] in WORD:
            ty, st = self.type_(t)
            return self.decl(t, ty, st)
        names = []
        while True:
            n = t.word(LOWER + "_", "variable")
            names.append(n)
            if n != "_":
                self.var(n)
            t.ws()
            if t.lit("="):
                break
            t.need(",", "assignment")
            t.ws()
        e = self.expr(t)
        t.end("assignment")
        self.emit(", ".join(names) + " = " + e)
        return "assign"

    def declare(self, var, st):
        for k in self.scope.vars:
            if k == var:
                raise Reject("redefinition")
        if self.scope.find("vars", var) is not None or any(var in list(s.vars) for s in self.chain(self.scope)):
            self.lenient = True
        self.scope.vars[var] = st if st is not None else False

    def decl(self, t, ty, st):
        t.ws()
        var = t.word(LOWER, "variable")
        self.declare(var, st)
        out = ty + " " + var
        t.ws()
        if t.i < len(t.s):
            t.need("=", "declaration")
            out += " = " + self.expr(t)
            t.end("declaration")
        self.emit(out)
        return "decl"

    # ---- expressions ----
    def var(self, name):
        s = self.scope
        while s is not None:
            for k, v in s.vars.items():
                if k == name:
                    return v
            s = s.up
        raise Reject("unknown variable")

    def struct_field(self, st, f):
        if not st:
            raise Reject("not a struct")
        for k in st:
            if k == f:
                return
        raise Reject("unknown field")

    def expr(self, t):
        a = self.value(t)
        j = t.i
        t.ws()
        for op in BINOPS:
            if t.lit(op):
                return a + " " + op + " " + self.value(t)
        t.i = j
        return a

    def index(self, t, what):
        e = self.expr(t)
        t.ws()
        t.need("]", what)
        return "[" + e + "]"

    def field(self, t, names):
        t.ws()
        f = t.word(UPPER, "field")
        if f not in names:
            raise Reject("unknown field")
        return f

    def value(self, t):
        t.ws()
        if t.i >= len(t.s):
            raise Reject("expression expected")
        if t.lit("("):
            a = self.value(t)
            t.ws()
            for op in BINOPS:
                if t.lit(op):
                    break
            else:
                raise Reject("operator expected")
            b = self.value(t)
            t.ws()
            t.need(")", "group")
            return "(" + a + " " + op + " " + b + ")"
        if t.lit("b~"):
            return "b~" + self.value(t)
        if t.peek("!~"):
            op = t.s[t.i]
            t.i += 1
            return op + self.value(t)
        if t.peek("\"'"):
            return t.string()
        if t.peek(DIGITS):
            d = t.word(DIGITS)
            for c in d:
                if not c in DIGITS + "_":
                    raise Reject("number")
            return d
        for head, names in (("Txn.", TXN_FIELDS), ("Itxn.", TXN_FIELDS), ("Global.", GLOBAL_FIELDS)):
            if t.lit(head):
                f = self.field(t, names)
                j = t.i
                t.ws()
                if head != "Global." and t.lit("["):
                    return head + f + self.index(t, "index")
                t.i = j
                return head + f
        if t.lit("Gtxn["):
            t.ws()
            sign = ""
            if t.peek("+-"):
                sign = t.s[t.i]
                t.i += 1
                t.ws()
                e = t.word(DIGITS)
                for c in e:
                    if not c in DIGITS:
                        raise Reject("relative index")
            else:
                e = self.expr(t)
            t.ws()
            t.need("].", "Gtxn")
            f = self.field(t, TXN_FIELDS)
            r = "Gtxn[" + sign + e + "]." + f
            j = t.i
            t.ws()
            if t.lit("["):
                return r + self.index(t, "index")
            t.i = j
            return r
        j = t.i
        w = t.word(LOWER + UPPER + "_")
        k = t.i
        t.ws()
        if t.peek("("):
            t.i = j
            return self.call(t)
        t.i = k
        if w[:1] in UPPER:
            for table in (ENUMS,):
                if w in table:
                    return w
            if self.scope.find("consts", w) is None:
                raise Reject("unknown constant")
            return w
        j = t.i
        t.ws()
        if t.lit("."):
            t.ws()
            f = t.word(LOWER, "field")
            self.struct_field(self.var(w), f)
            return w + "." + f
        t.i = j
        self.var(w)
        return w

    def call(self, t):
        name = t.word(LOWER + UPPER + "_" + DIGITS, "function")
        types = False
        enums = ()
        if name[:1] in UPPER:
            if name not in STDLIB:
                raise Reject("unknown function")
            types = True
        elif name in SPEC or name in EXTRA_OPS:
            o = SPEC.get(name) or {}
            enums = o.get("ArgEnum") or ()
        else:
            scope = self.scope

            def check():
                if scope.find("funcs", name) is None and not any(k == name for s in self.chain(scope) for k in s.funcs):
                    raise Reject("unknown function")
            self.later.append(check)
        t.ws()
        t.need("(", "call")
        args = []
        t.ws()
        while not t.lit(")"):
            if args:
                t.need(",", "arguments")
                t.ws()
            if types:
                j = t.i
                try:
                    ty, _ = self.type_(t)
                    k = t.i
                    t.ws()
                    if t.peek(",)"):
                        args.append(ty)
                        continue
                except Reject:
                    pass
                t.i = j
            if enums:
                j = t.i
                if t.peek(UPPER):
                    w = t.word(UPPER)
                    t.ws()
                    if t.peek(",)") and w in enums:
                        args.append(w)
                        continue
                t.i = j
            args.append(self.expr(t))
            t.ws()
        return name + "(" + ", ".join(args) + ")"

    def chain(self, s):
        while s is not None:
            yield s
            s = s.up


def code(line):
    """a line of TEAL without comment and surrounding blanks"""
    s = line.strip()
    i, q = 0, False
    while i < len(s):
        c = s[i]
        if q and c == "\\":
            i += 2
            continue
        if c == '"':
            q = not q
        elif not q and c == "/" and s[i + 1:i + 2] == "/":
            return s[:i].rstrip()
        i += 1
    return s


def parse(lines):
    return Parser(lines).parse()
