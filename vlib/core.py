"""Backend-neutral helpers: the same scenario, reference semantics and TEAL
interpreter run over symbolic values (z3, see symdom) and, for replays, over
concrete ones (condom, no z3)."""

U64 = 2 ** 64
MAXB = 4096

D = None        # value domain
BACK = None     # engine or concrete replayer


def set_backend(b):
    global BACK
    BACK = b


def set_domain(d):
    global D
    D = d


class AnyVal:
    """result of an op whose kind is not static (for example app_global_get);
    takes the kind its consumer expects"""

    __slots__ = ("fname", "args", "faces")

    def __init__(self, fname, args):
        self.fname = fname
        self.args = args
        self.faces = {}

    def face(self, kind):
        if kind not in self.faces:
            self.faces[kind] = D.opaque(kind, self.fname + "." + kind, self.args)
        return self.faces[kind]


def is_int(v):
    return isinstance(v, (int,)) or type(v).__name__ in ("SymInt", "SymBool")


def and_(*xs):
    r = True
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        r = x if r is True else (r & x)
    return r


def or_(*xs):
    r = False
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        r = x if r is False else (r | x)
    return r


def not_(x):
    if isinstance(x, bool):
        return not x
    return D.bnot(x)


def implies(a, b):
    return or_(not_(a), b)


class Panic(Exception):
    """AVM program failure"""

    def __init__(self, why, line=None):
        super().__init__(why)
        self.why = why
        self.line = line


class AsmError(Exception):
    """the emitted text would be rejected by the TEAL assembler"""


class IllTyped(Exception):
    """the emitted TEAL applies an op to a value of the wrong kind or underflows
    the stack"""
