"""Symbolic values.  Concrete data is always represented by itself (ordinary Python objects)."""
import z3
from .core import Unsupported

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
S = z3.StringSort()


class Sym:
    """Base of symbolic values: any native use of one is an engine limit, never a silent wrong answer."""
    pytype = None

    def _no(self, *a, **k):
        raise Unsupported('native operation on symbolic %s' % type(self).__name__)
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __bool__ = __len__ = __iter__ = __index__ = __int__ = __float__ = _no
    __str__ = __format__ = __contains__ = __getitem__ = _no
    __add__ = __radd__ = __mul__ = __sub__ = _no
    __call__ = _no

    def __hash__(self):
        raise Unsupported('hash of symbolic %s' % type(self).__name__)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.show())

    def show(self):
        return ''


class SBool(Sym):
    pytype = bool

    def __init__(self, t):
        self.t = t

    def show(self):
        return str(self.t)[:80]


class SInt(Sym):
    pytype = int

    def __init__(self, t):
        self.t = t

    def show(self):
        return str(self.t)[:80]


class SReal(Sym):
    """A finite Python float (mathematical real)."""
    pytype = float

    def __init__(self, t):
        self.t = t

    def show(self):
        return str(self.t)[:80]


class SEnum(Sym):
    """Unknown member of an Enum class; t is the member's value as an integer."""

    def __init__(self, cls, t):
        self.cls = cls
        self.pytype = cls
        self.t = t

    def show(self):
        return '%s %s' % (self.cls.__name__, str(self.t)[:60])


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mk_int(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def int_term(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an int: %r' % (v,))


def real_term(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        from fractions import Fraction
        f = Fraction(v)
        return z3.RatVal(f.numerator, f.denominator)
    return z3.ToReal(int_term(v))


def bool_term(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, SBool):
        return v.t
    raise Unsupported('not a bool: %r' % (v,))


# ------------------------------------------------------------------------- strings
LOWER = z3.Function('str.lower', S, S)
UPPER = z3.Function('str.upper', S, S)


class ZS:
    """String piece: z3 string term."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class IS:
    """String piece: decimal rendering of an int term."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class SText:
    """A text of unknown content: length n and code points ch(i)."""

    def __init__(self, name='text'):
        self.n = z3.Int(name + '.len')
        self.ch = z3.Function(name + '.ch', I, I)
        self.name = name


class SL:
    """String piece: text[i:j] (possibly case-mapped)."""
    __slots__ = ('text', 'i', 'j', 'mode')

    def __init__(self, text, i, j, mode=None):
        self.text, self.i, self.j, self.mode = text, i, j, mode


class SStr(Sym):
    pytype = str

    def __init__(self, pieces):
        self.pieces = pieces

    def show(self):
        return '+'.join(repr(p) if isinstance(p, str) else
                        (str(p.t) if isinstance(p, (ZS, IS)) else
                         '[%s:%s]%s' % (p.i, p.j, p.mode or '') if isinstance(p, SL) else type(p).__name__)
                        for p in self.pieces)[:120]


def _same(a, b):
    return z3.is_true(z3.simplify(a == b))


def mk_str(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            if p == '':
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif isinstance(p, IS):
            t = z3.simplify(p.t)
            if z3.is_int_value(t):
                lit = str(t.as_long())
                if out and isinstance(out[-1], str):
                    out[-1] += lit
                else:
                    out.append(lit)
                continue
        elif isinstance(p, ZS):
            t = z3.simplify(p.t)
            if z3.is_string_value(t):
                lit = zstr_value(t)
                if lit == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += lit
                else:
                    out.append(lit)
                continue
        elif isinstance(p, SL):
            if _same(p.i, p.j):
                continue
            if out and isinstance(out[-1], SL) and out[-1].text is p.text and out[-1].mode == p.mode and \
                    _same(out[-1].j, p.i):
                out[-1] = SL(p.text, out[-1].i, p.j, p.mode)
                continue
        out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(tuple(out))


def zstr_value(t):
    # z3 escapes non-ASCII as \u{..}
    s = t.as_string()
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def zlit(s):
    """z3 literal for a Python string."""
    return z3.StringVal(''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s))


def str_pieces(v):
    if isinstance(v, str):
        return (v,)
    if isinstance(v, SStr):
        return v.pieces
    raise Unsupported('not a str: %r' % (v,))


def str_z3(v):
    """The value as one z3 string term (no text slices)."""
    ts = []
    for p in str_pieces(v):
        if isinstance(p, str):
            ts.append(zlit(p))
        elif isinstance(p, ZS):
            ts.append(p.t)
        else:
            raise Unsupported('string piece has no z3 term')
    if not ts:
        return z3.StringVal('')
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts)


# --------------------------------------------------------------------------- atoms
# Values of policy constants and members of attribute sets.
Atom = z3.Datatype('Atom')
Atom.declare('Num', ('num', R))
Atom.declare('Str', ('str', S))
Atom.declare('Null')
Atom = Atom.create()


class SAtom(Sym):
    """A value of atomic kind (number, string or NULL) whose kind is not decided yet.

    null: the concrete NULL object; isint: z3 Bool, whether a number is a Python int."""

    def __init__(self, t, isint, null):
        self.t, self.isint, self.null = t, isint, null

    def show(self):
        return str(self.t)[:80]


class SAtoms(Sym):
    """A finite set (or list seen as a set) of atoms: arr is a z3 set (array from Atom to Bool)."""

    def __init__(self, member, pytype, null, elems=None, isint=None, size_known=None):
        if z3.is_expr(member):
            self.arr = member
        else:
            a = z3.Const('elem!0', Atom)
            self.arr = z3.Lambda([a], member(a))
        self.pytype = pytype
        self.null = null
        self.isint = isint

    def member(self, a):
        return z3.Select(self.arr, a)

    def show(self):
        return self.pytype.__name__


def atom_set(ts):
    """z3 set of finitely many atom terms."""
    s = z3.EmptySet(Atom)
    for t in ts:
        s = z3.SetAdd(s, t)
    return s


CTX = [None]      # the running Ctx (lazily made elements are journaled: they may depend on path decisions)


class SSeq(Sym):
    """A sequence of unknown length; gen(i) gives the element at index term i."""

    def __init__(self, n, gen, pytype=list, label='seq'):
        self.n = n
        self.gen = gen
        self.pytype = pytype
        self.label = label
        self.cache = {}

    def at(self, i):
        i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
        k = i.get_id()
        if k not in self.cache:
            j = CTX[0].journal if CTX[0] is not None else None
            m = j.mark() if j else 0
            v = self.gen(i)
            if j:
                j.relabel(m, 'lazy')
            self.cache[k] = (i, v)
            if CTX[0] is not None:
                cache = self.cache
                CTX[0].journal.record('cache', self, k, lambda: cache.pop(k, None))
        return self.cache[k][1]

    def show(self):
        return '%s n=%s' % (self.label, self.n)


class SMutSeq(Sym):
    """A mutable list = concrete/symbolic segments.  segs: list of ('elem', v) | ('seq', SSeq)."""
    pytype = list

    def __init__(self, segs):
        self.segs = list(segs)

    def show(self):
        return '%d segments' % len(self.segs)


class SDict(Sym):
    """A dict with unknown contents, initialised lazily per key.

    entries: list of [key, value or ABSENT]; factory(key) makes the value of a present unknown key."""
    pytype = dict

    def __init__(self, factory=None, label='dict', may_be_absent=True, unknown=True):
        self.entries = ()
        self.factory = factory
        self.label = label
        self.unknown = unknown        # keys outside entries may be present
        self.may_be_absent = may_be_absent

    def show(self):
        return self.label


ABSENT = object()


class Lazy:
    """Heap cell content decided at first load: calls make() (which may branch)."""

    def __init__(self, make):
        self.make = make


class Poison:
    """Dead value after a loop cut; reading it is an engine limit."""

    def __init__(self, why):
        self.why = why


class Opaque(Sym):
    """A value about which nothing is known; only passing it around is allowed."""

    def __init__(self, label, pytype=object, attrs=None):
        self.label = label
        self.pytype = pytype

    def show(self):
        return self.label


def is_sym(v):
    return isinstance(v, Sym)


def contains_sym(v, depth=2):
    if isinstance(v, (Sym, Poison, Lazy)):
        return True
    if depth > 0:
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(contains_sym(x, depth - 1) for x in v)
        if isinstance(v, dict):
            return any(contains_sym(x, depth - 1) for x in v.values()) or \
                any(contains_sym(x, depth - 1) for x in v.keys())
    return False


def pytype_of(v):
    if isinstance(v, Sym):
        return v.pytype
    return type(v)
