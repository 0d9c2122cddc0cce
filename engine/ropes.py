"""Byte strings of unknown content: a rope is a tuple of pieces.

  bytes            literal bytes
  Num(n, t, o, s)  the n-byte encoding (byte order o, signed s) of the integer t, which is in range
  Flt(n, t)        the n-byte little-endian encoding of the float t
  Raw(t)           an unknown byte string; t is a constant of sort Bytes, blen(t) its length
  Utf(t)           the UTF-8 encoding of the z3 string t; ulen(t) its length
  Rep(seq, lo, hi) the concatenation of the byte strings seq[lo], ..., seq[hi-1]
  B64(rope)        the base64 encoding of a rope
  Part(key, n, expand)  the encoding of an object under contract
"""
import ast
import base64
import binascii
import struct
import z3

from .core import Unsupported, PathKill
from .values import *
from .interp import Seg, NOTHANDLED, has_seg, ModelFn

BYTES = z3.DeclareSort('Bytes')
blen = z3.Function('blen', BYTES, I)
ulen = z3.Function('ulen', S, I)
utf8_ok = z3.Function('utf8.encodable', S, B)
dec_ok = z3.Function('utf8.decodable', BYTES, B)
dec = z3.Function('utf8.decoded', BYTES, S)


REPK = z3.Int('rep!k')


class Num:
    __slots__ = ('n', 't', 'order', 'signed')

    def __init__(self, n, t, order, signed):
        self.n, self.t, self.order, self.signed = n, z3.simplify(t), order, signed

    def key(self):
        return ('num', self.n, self.order if self.n > 1 else '', self.signed, self.t.sexpr())


class Flt:
    __slots__ = ('n', 't', 'order')

    def __init__(self, n, t, order):
        self.n, self.t, self.order = n, t, order

    def key(self):
        return ('flt', self.n, self.order, self.t.sexpr())


class Raw:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ('raw', self.t.sexpr())


class Utf:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def key(self):
        return ('utf', self.t.sexpr())


class Rep:
    __slots__ = ('seq', 'lo', 'hi', 'unit')

    def __init__(self, seq, lo, hi, unit=None):
        self.seq, self.lo, self.hi, self.unit = seq, z3.simplify(lo), z3.simplify(hi), unit

    def key(self):
        # two runs are the same if their generic elements are
        k = getattr(self.seq, 'repkey', None)
        if k is not None:
            return ('rep', k, self.lo.sexpr(), self.hi.sexpr())
        ks = generic_elem(self.seq, REPK, rope_key)
        if len(ks) > 1:
            raise Unsupported('the elements of a run of byte strings have several forms')
        if ks:
            self.seq.repkey = ks[0]
        return ('rep', ks[0] if ks else None, self.lo.sexpr(), self.hi.sexpr())


class B64:
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope

    def key(self):
        return ('b64', tuple(pkey(p) for p in self.rope))


class BS(B64):
    """String piece: base64 text of a rope."""
    __slots__ = ()


class Part:
    __slots__ = ('ident', 'n', 'expand', 'obj')

    def __init__(self, ident, n, expand, obj=None):
        self.ident, self.n, self.expand, self.obj = ident, n, expand, obj

    def key(self):
        return ('part', self.ident)


def generic_elem(seq, k, f):
    """f(element k) on every path, for a generic index k of the sequence."""
    ctx = CTX[0]

    def go():
        ctx.assume(z3.And(0 <= k, k < seq.n))
        if not ctx.feasible():
            raise PathKill()
        return f(norm(rope_of(seq.at(k))))
    out = []
    for r in ctx.explore(go):
        if r not in out:
            out.append(r)
    return out


def pkey(p):
    return ('lit', p) if isinstance(p, bytes) else p.key()


def rope_key(r):
    return tuple(pkey(p) for p in r)


class SBytes(Sym):
    pytype = bytes

    def __init__(self, rope):
        self.rope = tuple(rope)

    def show(self):
        return '+'.join(repr(p) if isinstance(p, bytes) else type(p).__name__ + str(pkey(p)[1:])[:40] for p in self.rope)[:200]

    def length_term(self, interp):
        return length(interp, self.rope)

    def sym_eq(self, interp, other):
        if isinstance(other, (bytes, bytearray, SBytes)):
            return rope_eq(interp, self.rope, rope_of(other))
        return False

    def iterate(self, interp):
        raise Unsupported('iteration over unknown bytes')

    def method(self, interp, name, args, kwargs):
        return bytes_method(interp, self, name, args, kwargs)


class SByteArray(SBytes):
    pytype = bytearray

    def setitem(self, interp, idx, v):
        if not isinstance(idx, slice) or idx.step not in (None, 1):
            raise Unsupported('byte store')
        if not isinstance(v, (bytes, bytearray, SBytes)):
            raise Unsupported('slice store of %r' % (v,))
        lo, hi = bounds(interp, self.rope, idx)
        left, rest = split(interp, self.rope, lo)
        _, right = split(interp, rest, z3.simplify(hi - lo))
        interp.ctx.set_cell(self, 'rope', norm(left + rope_of(v) + right))


def norm(pieces):
    out = []
    for p in pieces:
        if isinstance(p, bytes):
            if not p:
                continue
            if out and isinstance(out[-1], bytes):
                out[-1] += p
                continue
        elif isinstance(p, Rep) and z3.is_true(z3.simplify(p.lo >= p.hi)):
            continue
        elif isinstance(p, Utf) and z3.is_string_value(p.t) and zstr_value(p.t) == '':
            continue
        out.append(p)
    return tuple(out)


def rope_of(v):
    if isinstance(v, SBytes):
        return v.rope
    if isinstance(v, (bytes, bytearray)):
        return (bytes(v),) if len(v) else ()
    raise Unsupported('not bytes: %r' % (v,))


def mk_bytes(pieces, cls=SBytes):
    r = norm(pieces)
    if all(isinstance(p, bytes) for p in r):
        b = b''.join(r)
        return b if cls is SBytes else cls(r)
    return cls(r)


REPLEN = {}


def replen(seq):
    k = getattr(seq, 'ident', None) or ('s%d' % id(seq))
    if k not in REPLEN:
        REPLEN[k] = (z3.Function('replen.%s' % k, I, I, I), seq)
    return REPLEN[k][0]


def fact(ctx, f):
    f = z3.simplify(f)
    if not any(a.eq(f) for a in ctx.assumed[-200:]):
        ctx.assume(f)


def plen(interp, p):
    ctx = interp.ctx
    if isinstance(p, bytes):
        return z3.IntVal(len(p))
    if isinstance(p, (Num, Flt)):
        return z3.IntVal(p.n)
    if isinstance(p, Raw):
        t = blen(p.t)
        if not ctx.entails(t >= 0):
            ctx.assume(t >= 0)
        return t
    if isinstance(p, Utf):
        t = ulen(p.t)
        if not ctx.entails(z3.And(t >= 0, (t == 0) == (p.t == z3.StringVal('')))):
            ctx.assume(z3.And(t >= 0, (t == 0) == (p.t == z3.StringVal(''))))
        return t
    if isinstance(p, Rep):
        if p.unit is not None:
            return z3.If(p.hi > p.lo, (p.hi - p.lo) * p.unit, z3.IntVal(0))
        t = replen(p.seq)(p.lo, p.hi)
        fact(ctx, z3.And(t >= 0, z3.Implies(p.lo >= p.hi, t == 0)))
        return t
    if isinstance(p, B64):
        return 4 * ((length(interp, p.rope) + 2) / 3)
    if isinstance(p, Part):
        fact(ctx, p.n >= 0)
        return p.n
    raise Unsupported('length of %r' % p)


def length(interp, rope):
    t = z3.IntVal(0)
    for p in rope:
        t = t + plen(interp, p)
    return z3.simplify(t)


def fresh_raw(interp, n=None, base='bytes'):
    t = z3.Const(interp.ctx.name(base), BYTES)
    interp.ctx.assume(blen(t) >= 0 if n is None else blen(t) == n)
    return Raw(t)


def raw(name):
    """A byte string of unknown content."""
    return SBytes((Raw(z3.Const(name, BYTES)),))


def same(interp, a, b):
    d = z3.simplify(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return interp.ctx.entails(a == b)


def expand_rep(interp, p):
    """Rep with at least one element: its first element and the rest."""
    e = rope_of(p.seq.at(p.lo))
    rest = Rep(p.seq, p.lo + 1, p.hi, p.unit)
    if p.unit is None:
        f = replen(p.seq)
        interp.ctx.assume(f(p.lo, p.hi) == length(interp, e) + f(z3.simplify(p.lo + 1), p.hi))
    return e + (rest,)


def split(interp, rope, off):
    """(rope[:off], rope[off:]) for 0 <= off; off beyond the end gives the whole rope."""
    ctx = interp.ctx
    off = z3.simplify(off)
    left, rest, acc = [], list(rope), z3.IntVal(0)
    while rest:
        if same(interp, off, acc):
            return tuple(left), tuple(rest)
        p = rest[0]
        n = plen(interp, p)
        d = z3.simplify(off - acc)
        if isinstance(p, bytes) and z3.is_int_value(d) and 0 < d.as_long() < len(p):
            return tuple(left) + (p[:d.as_long()],), (p[d.as_long():],) + tuple(rest[1:])
        if ctx.entails(off >= acc + n):
            if isinstance(p, (bytes, Num, Flt)) or not ctx.entails(n == 0):
                left.append(p)
            rest.pop(0)
            acc = z3.simplify(acc + n)
            continue
        if isinstance(p, Rep) and ctx.entails(p.lo < p.hi):
            rest[0:1] = list(norm(expand_rep(interp, p)))
            continue
        if isinstance(p, Part):
            rest[0:1] = list(p.expand(interp))
            continue
        if ctx.branch(off >= acc + n):
            left.append(p)
            rest.pop(0)
            acc = z3.simplify(acc + n)
            continue
        if ctx.branch(off == acc):
            return tuple(left), tuple(rest)
        # the cut falls inside a piece: unknown parts of it
        k = z3.simplify(off - acc)
        return tuple(left) + (fresh_raw(interp, k, 'head'),), (fresh_raw(interp, z3.simplify(n - k), 'tail'),) + tuple(rest[1:])
    return tuple(left), ()


def bounds(interp, rope, idx):
    from . import models
    from .texts import settle
    n = length(interp, rope)
    lo = settle(interp, models.clamp(interp, idx.start, n, z3.IntVal(0)))
    hi = settle(interp, models.clamp(interp, idx.stop, n, n))
    if not interp.ctx.entails(lo <= hi):
        if not interp.ctx.branch(lo <= hi):
            hi = lo
    return lo, hi


def getitem(interp, obj, idx):
    rope = rope_of(obj)
    if isinstance(idx, slice):
        if idx.step not in (None, 1):
            raise Unsupported('slice step')
        if isinstance(idx.start, int) and isinstance(idx.stop, int) and 0 <= idx.start <= idx.stop and \
                not interp.ctx.entails(length(interp, rope) >= idx.stop):
            interp.ctx.branch(length(interp, rope) >= idx.stop)
        lo, hi = bounds(interp, rope, idx)
        _, rest = split(interp, rope, lo)
        mid, _ = split(interp, rest, z3.simplify(hi - lo))
        return mk_bytes(mid, SByteArray if pytype_of(obj) is bytearray else SBytes)
    if not isinstance(idx, (int, SInt)):
        interp.raise_py(TypeError('byte indices must be integers or slices'))
    from . import models
    k = models.norm_index(interp, idx, length(interp, rope))
    _, rest = split(interp, rope, k)
    one, _ = split(interp, rest, z3.IntVal(1))
    return to_int(interp, one, '<', False, 1)


def delitem(interp, obj, idx):
    if isinstance(obj, bytearray):
        raise Unsupported('del on a bytearray')
    if not isinstance(obj, SByteArray) or not isinstance(idx, slice):
        raise Unsupported('del of a byte')
    obj.setitem(interp, idx, b'')


def iadd(interp, cur, v):
    if not isinstance(v, (bytes, bytearray, SBytes)):
        interp.raise_py(TypeError("can't concat to bytearray"))
    if isinstance(cur, bytearray):
        if isinstance(v, Sym):
            raise Unsupported('native bytearray extended with unknown bytes')
        interp.ctx.touch(cur)
        cur.extend(v)
        return cur
    interp.ctx.set_cell(cur, 'rope', norm(cur.rope + rope_of(v)))
    return cur


def binop(interp, opcls, a, b):
    bs = (bytes, bytearray, SBytes)
    if opcls is ast.Add:
        if isinstance(a, bs) and isinstance(b, bs):
            return mk_bytes(rope_of(a) + rope_of(b), SByteArray if pytype_of(a) is bytearray else SBytes)
        interp.raise_py(TypeError("can't concat"))
    if opcls is ast.Mult and isinstance(b, int) and isinstance(a, bs) and b < 50:
        return mk_bytes(rope_of(a) * max(b, 0), SByteArray if pytype_of(a) is bytearray else SBytes)
    if opcls is ast.Mod:
        raise Unsupported('bytes formatting')
    interp.raise_py(TypeError('unsupported operand type(s)'))


def piece_eq(x, y):
    if type(x) is type(y) and isinstance(x, (Raw, Utf)):
        return x.t == y.t
    if isinstance(x, Flt) and isinstance(y, Flt) and (x.n, x.order) == (y.n, y.order):
        return x.t == y.t
    return None


def rope_eq(interp, a, b):
    a, b = list(norm(a)), list(norm(b))
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, bytes) and isinstance(y, bytes):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return False
            a[0:1] = [x[k:]] if x[k:] else []
            b[0:1] = [y[k:]] if y[k:] else []
            continue
        if not isinstance(x, bytes) and not isinstance(y, bytes) and x.key() == y.key():
            a.pop(0)
            b.pop(0)
            continue
        break
    while a and b:
        x, y = a[-1], b[-1]
        if isinstance(x, bytes) and isinstance(y, bytes):
            k = min(len(x), len(y))
            if x[len(x) - k:] != y[len(y) - k:]:
                return False
            a[-1:] = [x[:len(x) - k]] if x[:len(x) - k] else []
            b[-1:] = [y[:len(y) - k]] if y[:len(y) - k] else []
            continue
        if not isinstance(x, bytes) and not isinstance(y, bytes) and x.key() == y.key():
            a.pop()
            b.pop()
            continue
        break
    if a and b:
        a = [p for p in a if isinstance(p, bytes) or not interp.ctx.entails(plen(interp, p) == 0)]
        b = [p for p in b if isinstance(p, bytes) or not interp.ctx.entails(plen(interp, p) == 0)]
    if not a or not b:
        return mk_bool(length(interp, tuple(a or b)) == 0)
    conds = []
    while a and b:
        x, y = a[0], b[0]
        if isinstance(x, bytes) and isinstance(y, bytes):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return False
            a[0:1] = [x[k:]] if x[k:] else []
            b[0:1] = [y[k:]] if y[k:] else []
            continue
        if not isinstance(x, bytes) and not isinstance(y, bytes):
            if x.key() == y.key():
                a.pop(0)
                b.pop(0)
                continue
            if isinstance(x, Num) and isinstance(y, Num) and (x.n, x.order, x.signed) == (y.n, y.order, y.signed):
                conds.append(x.t == y.t)
                a.pop(0)
                b.pop(0)
                continue
            if len(a) == 1 and len(b) == 1 or not isinstance(x, Num) and not isinstance(y, Num) and \
                    same(interp, plen(interp, x), plen(interp, y)):
                t = piece_eq(x, y)
                if t is None:
                    break
                conds.append(t)
                a.pop(0)
                b.pop(0)
                continue
            break
        lit, num = (x, y) if isinstance(x, bytes) else (y, x)
        if isinstance(num, Num) and len(lit) >= num.n:
            conds.append(num.t == int.from_bytes(lit[:num.n], 'little' if num.order == '<' else 'big', signed=num.signed))
            (a if num is x else b).pop(0)
            (b if num is x else a)[0:1] = [lit[num.n:]] if lit[num.n:] else []
            continue
        break
    if not a and not b:
        return mk_bool(z3.And(conds))
    if conds and z3.is_false(z3.simplify(z3.And(conds))) or conds and interp.ctx.entails(z3.Not(z3.And(conds))):
        return False
    if not a or not b:
        return mk_bool(z3.And(conds + [length(interp, tuple(a or b)) == 0]))
    if conds:
        r = bool_term(rope_eq(interp, tuple(a), tuple(b)))
        return mk_bool(z3.And(conds + [r]))
    if len(a) == 1 and len(b) == 1:
        for p, q in ((a[0], b[0]), (b[0], a[0])):
            if isinstance(p, Raw) and isinstance(q, bytes):
                f = z3.Function('bytes.%s' % q.hex(), BYTES, B)
                interp.ctx.assume(z3.Implies(f(p.t), blen(p.t) == len(q)))
                return mk_bool(f(p.t))
    if interp.ctx.entails(length(interp, tuple(a)) != length(interp, tuple(b))):
        return False
    raise Unsupported('equality of byte strings %r %r' % (SBytes(a), SBytes(b)))


# ------------------------------------------------------------------------------------------------ text
def norm_encoding(enc):
    if not isinstance(enc, str):
        raise Unsupported('encoding')
    return enc.lower().replace('_', '-').replace('utf8', 'utf-8')


def encode_str(interp, s, enc='utf-8', errors='strict'):
    enc = norm_encoding(enc)
    if isinstance(s, str):
        return interp.native(str.encode, [s, enc, errors])
    if enc not in ('utf-8', 'ascii') or errors != 'strict':
        raise Unsupported('encoding %s' % enc)
    ctx = interp.ctx
    out = []
    for p in str_pieces(s):
        if isinstance(p, str):
            out.append(interp.native(str.encode, [p, enc]))
        elif isinstance(p, ZS):
            ok = utf8_ok(p.t)
            if enc == 'ascii':
                ok = z3.Function('ascii', S, B)(p.t)
                ctx.assume(z3.Implies(ok, utf8_ok(p.t)))
            if not ctx.branch(ok):
                interp.raise_py(UnicodeEncodeError(enc, '', 0, 1, 'not encodable'))
            out.append(Utf(p.t))
        elif isinstance(p, BS):
            out.append(B64(p.rope))
        else:
            raise Unsupported('encoding of rendered numbers')
    return mk_bytes(out)


def decode_bytes(interp, v, enc='utf-8', errors='strict'):
    enc = norm_encoding(enc)
    rope = norm(rope_of(v))
    if all(isinstance(p, bytes) for p in rope):
        return interp.native(bytes.decode, [b''.join(rope), enc, errors])
    if all(isinstance(p, B64) or isinstance(p, bytes) for p in rope):
        return mk_str([BS(p.rope) if isinstance(p, B64) else interp.native(bytes.decode, [p, enc]) for p in rope])
    if enc != 'utf-8' or errors != 'strict':
        raise Unsupported('decoding %s' % enc)
    if all(isinstance(p, Utf) or isinstance(p, bytes) for p in rope):
        return mk_str([ZS(p.t) if isinstance(p, Utf) else interp.native(bytes.decode, [p, enc]) for p in rope])
    if len(rope) == 1 and isinstance(rope[0], Raw):
        t = rope[0].t
    else:
        t = fresh_raw(interp, length(interp, rope), 'garbled').t
    if not interp.ctx.branch(dec_ok(t)):
        interp.raise_py(UnicodeDecodeError('utf-8', b'', 0, 1, 'invalid'))
    interp.ctx.assume((blen(t) == 0) == (dec(t) == z3.StringVal('')))
    return mk_str([ZS(dec(t))])


def bytes_method(interp, obj, name, args, kwargs):
    sym = isinstance(obj, Sym) or any(contains_sym(a, 2) for a in args) or \
        any(not isinstance(a, (bytes, bytearray, str, int, list, tuple)) for a in args)
    if not sym:
        if isinstance(obj, bytearray) and name in ('extend', 'append', 'clear', 'pop', 'insert', 'remove', 'reverse'):
            interp.ctx.touch(obj)
        if name != 'join':
            return NOTHANDLED
    if name == 'decode':
        return decode_bytes(interp, obj, *(list(args[:2]) or [kwargs.get('encoding', 'utf-8')]))
    if name == 'join':
        return join(interp, obj, args[0])
    if name == 'extend' and isinstance(obj, SByteArray):
        iadd(interp, obj, args[0])
        return None
    if name == 'clear' and isinstance(obj, SByteArray):
        interp.ctx.set_cell(obj, 'rope', ())
        return None
    if name == 'copy':
        return mk_bytes(obj.rope, type(obj))
    if name == 'startswith' and isinstance(obj, SBytes) and isinstance(args[0], bytes) and len(args) == 1:
        k = len(args[0])
        if not interp.ctx.branch(length(interp, obj.rope) >= k):
            return False
        head, _ = split(interp, obj.rope, z3.IntVal(k))
        return rope_eq(interp, head, (args[0],))
    raise Unsupported('bytes.%s' % name)


def join(interp, sep, v):
    sep_rope = rope_of(sep)
    if isinstance(v, SSeq):
        items = [Seg(v)]
    elif isinstance(v, (list, tuple)):
        items = list(v)
    else:
        from .interp import GenVal
        if isinstance(v, GenVal):
            from . import loops
            items = loops.gen_comprehension(interp, v, 'list')
        else:
            it = interp.iterate(v)
            items = [Seg(interp.as_seq(v))] if it is None else list(it)
    out = []
    for i, x in enumerate(items):
        if i:
            out += sep_rope
        if type(x) is Seg:
            if sep_rope:
                raise Unsupported('join of unknown many byte strings with a separator')
            out.append(rep(interp, x.seq))
        elif isinstance(x, (bytes, bytearray, SBytes)):
            out += rope_of(x)
        else:
            interp.raise_py(TypeError('sequence item %d: expected a bytes-like object' % i))
    return mk_bytes(out, SByteArray if pytype_of(sep) is bytearray else SBytes)


def rep(interp, seq):
    k = z3.Int(interp.ctx.name('k'))

    def size(r):
        if all(isinstance(p, (bytes, Num, Flt)) for p in r):
            return sum(len(p) if isinstance(p, bytes) else p.n for p in r)
        return None
    if hasattr(seq, 'unit'):
        return Rep(seq, z3.IntVal(0), seq.n, seq.unit)
    sizes = generic_elem(seq, k, size)
    unit = sizes[0] if len(sizes) == 1 else None
    return Rep(seq, z3.IntVal(0), seq.n, unit)


def bytes_ctor(interp, cls, args, kw):
    out = SBytes if cls is bytes else SByteArray
    if not args:
        return b'' if cls is bytes else SByteArray(())
    v = args[0]
    if isinstance(v, (str, SStr)):
        enc = args[1] if len(args) > 1 else kw.get('encoding')
        if enc is None:
            interp.raise_py(TypeError('string argument without an encoding'))
        return mk_bytes(rope_of(encode_str(interp, v, enc)), out)
    if isinstance(v, (bytes, bytearray, SBytes)):
        return mk_bytes(rope_of(v), out)
    if isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 100000:
        return mk_bytes((bytes(v),), out)
    if isinstance(v, (list, tuple)) and not has_seg(v):
        ps = []
        for x in v:
            if not isinstance(x, (int, SInt)):
                interp.raise_py(TypeError('an integer is required'))
            if not interp.truth(mk_bool(z3.And(int_term(x) >= 0, int_term(x) < 256))):
                interp.raise_py(ValueError('bytes must be in range(0, 256)'))
            ps.append(bytes([x]) if isinstance(x, int) else Num(1, x.t, '<', False))
        return mk_bytes(ps, out)
    m = None if isinstance(v, Sym) else interp.class_attr(type(v), '__bytes__')
    if m is not None:
        return mk_bytes(rope_of(interp.call(m, [v])), out)
    if isinstance(v, Sym):
        raise Unsupported('bytes(%r)' % v)
    return interp.native(cls, args, kw)


# ------------------------------------------------------------------------------------------------ integers
def in_range(t, n, signed):
    if signed:
        return z3.And(t >= -(1 << (8 * n - 1)), t < (1 << (8 * n - 1)))
    return z3.And(t >= 0, t < (1 << (8 * n)))


def to_int(interp, rope, order, signed, n=None):
    rope = norm(rope)
    if all(isinstance(p, bytes) for p in rope):
        return int.from_bytes(b''.join(rope), 'little' if order == '<' else 'big', signed=signed)
    if len(rope) == 1 and isinstance(rope[0], Num):
        p = rope[0]
        if (p.order == order or p.n == 1) and p.signed == signed:
            return mk_int(p.t)
        if (p.order == order or p.n == 1) and p.n <= 8:
            m = 1 << (8 * p.n)
            return mk_int(z3.If(p.t < 0, p.t + m, p.t) if p.signed else z3.If(p.t >= m // 2, p.t - m, p.t))
    t = z3.Int(interp.ctx.name('read'))
    if n is not None:
        interp.ctx.assume(in_range(t, n, signed))
    elif not signed:
        interp.ctx.assume(t >= 0)
    return SInt(t)


def int_method(interp, obj, name, args, kwargs):
    if name == 'to_bytes':
        n = args[0] if args else kwargs.get('length', 1)
        order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
        signed = kwargs.get('signed', False)
        if not isinstance(n, int) or order not in ('little', 'big'):
            raise Unsupported('to_bytes')
        t = int_term(obj)
        if not interp.ctx.branch(in_range(t, n, signed)):
            interp.raise_py(OverflowError('int too big to convert'))
        return mk_bytes([Num(n, t, '<' if order == 'little' else '>', signed)])
    if name == '__index__' or name == '__int__':
        return obj
    raise Unsupported('int.%s' % name)


def from_bytes(interp, args, kwargs):
    v = args[0]
    order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
    if not isinstance(v, Sym):
        return interp.native(int.from_bytes, args, kwargs)
    if not isinstance(v, SBytes) or order not in ('little', 'big'):
        raise Unsupported('int.from_bytes')
    return to_int(interp, v.rope, '<' if order == 'little' else '>', kwargs.get('signed', False))


# ------------------------------------------------------------------------------------------------ struct
SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
         'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse(interp, fmt):
    """[(count, code)], byte order; counts may be integer terms."""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, struct.Struct):
        fmt = fmt.format
    order = None
    items = []
    count = None
    for k, p in enumerate(str_pieces(fmt)):
        if isinstance(p, IS):
            if count is not None:
                raise Unsupported('struct count')
            if not interp.ctx.branch(p.t >= 0):
                interp.raise_py(struct.error('bad char in struct format'))
            count = p.t
            continue
        if not isinstance(p, str):
            raise Unsupported('struct format')
        for ch in p:
            if order is None and not items and count is None and ch in '<>!=@':
                order = ch
                continue
            if ch.isspace():
                continue
            if ch.isdigit():
                if count is not None and not isinstance(count, int):
                    raise Unsupported('struct count')
                count = (count or 0) * 10 + int(ch)
                continue
            if ch not in SIZES and ch not in 'sdfxc?p':
                interp.raise_py(struct.error('bad char in struct format'))
            if ch in 'c?px':
                raise Unsupported('struct code %s' % ch)
            if order in (None, '@') and ch not in 'sbB':
                raise Unsupported('native struct alignment')
            items.append((count, ch))
            count = None
    if count is not None:
        interp.raise_py(struct.error('repeat count given without format specifier'))
    return items, '>' if order in ('>', '!') else '<'


def item_size(count, ch):
    c = z3.IntVal(1) if count is None else (z3.IntVal(count) if isinstance(count, int) else count)
    if ch == 's':
        return c
    return c * (8 if ch == 'd' else 4 if ch == 'f' else SIZES[ch][0])


def calcsize(interp, fmt):
    items, _ = parse(interp, fmt)
    return z3.simplify(sum((item_size(c, ch) for c, ch in items), z3.IntVal(0)))


def round32(t):
    return z3.Function('float32', R, R)(t)


def pack(interp, fmt, args):
    if not isinstance(fmt, Sym) and not any(contains_sym(a, 2) for a in args):
        if isinstance(fmt, struct.Struct):
            return interp.native(fmt.pack, args)
        return interp.native(struct.pack, [fmt] + list(args))
    items, order = parse(interp, fmt)
    args = list(args)
    out = []
    ctx = interp.ctx

    def bad(m):
        interp.raise_py(struct.error(m))

    def integer(x, ch):
        n, signed = SIZES[ch]
        if isinstance(x, bool) or not isinstance(x, (int, SInt, SBool)):
            if not (isinstance(x, int) or isinstance(x, SEnum) and issubclass(x.cls, int)):
                bad('required argument is not an integer')
        t = x.t if isinstance(x, SEnum) else int_term(x)
        return t, n, signed
    for count, ch in items:
        if ch == 's':
            if not args or type(args[0]) is Seg:
                bad('wrong number of arguments')
            x = args.pop(0)
            if not isinstance(x, (bytes, bytearray, SBytes)):
                bad("argument for 's' must be a bytes object")
            n = z3.IntVal(1) if count is None else (z3.IntVal(count) if isinstance(count, int) else count)
            r = norm(rope_of(x))
            if same(interp, n, length(interp, r)):
                out += r
            elif ctx.branch(n == length(interp, r)):
                out += r
            else:
                out.append(fresh_raw(interp, n, 'padded'))
            continue
        if ch in 'df':
            x = args.pop(0) if args else bad('wrong number of arguments')
            if count not in (None, 1):
                raise Unsupported('struct count')
            if not isinstance(x, (int, float, SInt, SReal)):
                bad('required argument is not a float')
            t = real_term(x)
            if ch == 'd':
                out.append(Flt(8, t, order))
            else:
                ok = z3.Function('float32.fits', R, B)
                if not ctx.branch(ok(t)):
                    interp.raise_py(OverflowError('float too large to pack with f format'))
                out.append(Flt(4, round32(t), order))
            continue
        if count is not None and not isinstance(count, int) or args and type(args[0]) is Seg:
            # one symbolic run of integers
            if count is None:
                raise Unsupported('struct arguments')
            n = z3.IntVal(count) if isinstance(count, int) else count
            k = z3.IntVal(0)
            while args and not same(interp, k, n):
                x = args.pop(0)
                if type(x) is Seg:
                    out.append(pack_run(interp, x.seq, ch, order, integer))
                    k = z3.simplify(k + x.seq.n)
                else:
                    t, nb, signed = integer(x, ch)
                    if not ctx.branch(in_range(t, nb, signed)):
                        bad("'%s' format requires a number in range" % ch)
                    out.append(Num(nb, t, order, signed))
                    k = z3.simplify(k + 1)
            if not same(interp, k, n):
                if not ctx.branch(k == n):
                    bad('wrong number of arguments')
            continue
        for _ in range(1 if count is None else count):
            if not args:
                bad('wrong number of arguments')
            x = args.pop(0)
            if type(x) is Seg:
                raise Unsupported('struct arguments')
            t, n, signed = integer(x, ch)
            if not ctx.branch(in_range(t, n, signed)):
                bad("'%s' format requires a number in range" % ch)
            out.append(Num(n, t, order, signed) if not z3.is_int_value(z3.simplify(t)) else
                       z3.simplify(t).as_long().to_bytes(n, 'little' if order == '<' else 'big', signed=signed))
    if args:
        for x in args:
            if type(x) is not Seg or not same(interp, x.seq.n, z3.IntVal(0)):
                bad('wrong number of arguments')
    return mk_bytes(out)


class Mapped(SSeq):
    pass


def pack_run(interp, seq, ch, order, integer):
    ctx = interp.ctx
    k = z3.Int(ctx.name('k'))
    t, n, signed = integer(seq.at(k), ch)
    allok = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < seq.n), in_range(t, n, signed)))
    if not ctx.branch(allok):
        interp.raise_py(struct.error("'%s' format requires a number in range" % ch))
    m = Mapped(seq.n, lambda i: SBytes((Num(n, z3.substitute(t, (k, i)), order, signed),)))
    m.ints = lambda i: mk_int(z3.substitute(t, (k, i)))
    m.fmt = (n, order, signed)
    return Rep(m, z3.IntVal(0), seq.n, n)


def unpack(interp, fmt, data, exact=True):
    if not isinstance(fmt, Sym) and not isinstance(data, Sym):
        if isinstance(fmt, struct.Struct):
            return interp.native(fmt.unpack, [data])
        return interp.native(struct.unpack, [fmt, data])
    if not isinstance(data, (bytes, bytearray, SBytes)):
        interp.raise_py(TypeError('a bytes-like object is required'))
    items, order = parse(interp, fmt)
    rope = rope_of(data)
    size = z3.simplify(sum((item_size(c, ch) for c, ch in items), z3.IntVal(0)))
    n = length(interp, rope)
    if not same(interp, n, size):
        if not interp.ctx.branch(n == size):
            interp.raise_py(struct.error('unpack requires a buffer of %s bytes' % size))
    out = []
    for count, ch in items:
        if ch == 's':
            head, rope = split(interp, rope, item_size(count, ch))
            out.append(mk_bytes(head))
            continue
        if count is not None and not isinstance(count, int):
            head, rope = split(interp, rope, z3.simplify(item_size(count, ch)))
            out.append(Seg(int_run(interp, norm(head), count, ch, order)))
            continue
        for _ in range(1 if count is None else count):
            head, rope = split(interp, rope, z3.simplify(item_size(None, ch)))
            head = norm(head)
            if ch in 'df':
                if len(head) == 1 and isinstance(head[0], Flt) and head[0].n == (8 if ch == 'd' else 4) and head[0].order == order:
                    out.append(SReal(head[0].t))
                elif all(isinstance(p, bytes) for p in head):
                    out.append(struct.unpack(order + ch, b''.join(head))[0])
                else:
                    out.append(SReal(z3.Real(interp.ctx.name('read'))))
            else:
                out.append(to_int(interp, head, order, SIZES[ch][1], SIZES[ch][0]))
    return tuple(out)


def int_run(interp, rope, count, ch, order):
    n, signed = SIZES[ch]
    if len(rope) == 1 and isinstance(rope[0], Rep) and isinstance(rope[0].seq, Mapped) and rope[0].seq.fmt == (n, order, signed):
        p = rope[0]
        return SSeq(count, lambda i: p.seq.ints(z3.simplify(p.lo + i)), tuple)
    f = z3.Function(interp.ctx.name('read'), I, I)
    j = z3.Int(interp.ctx.name('j'))
    interp.ctx.assume(z3.ForAll([j], in_range(f(j), n, signed)))
    return SSeq(count, lambda i: mk_int(f(i)), tuple)


# ------------------------------------------------------------------------------------------------ base64
ALPHABET = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=')


def b64encode(interp, args, kw):
    v = args[0]
    if len(args) > 1 or kw:
        raise Unsupported('b64encode with another alphabet')
    if isinstance(v, (str, SStr)):
        interp.raise_py(TypeError("a bytes-like object is required, not 'str'"))
    if not isinstance(v, Sym):
        return interp.native(base64.b64encode, args)
    if not isinstance(v, SBytes):
        raise Unsupported('b64encode')
    return mk_bytes([B64(norm(v.rope))])


def b64decode(interp, args, kw):
    v = args[0]
    strict = kw.get('validate', args[2] if len(args) > 2 else False)
    if not isinstance(v, Sym):
        return interp.native(base64.b64decode, args, kw)
    if isinstance(v, SStr):
        ps = [p.encode('latin-1', 'replace') if isinstance(p, str) else (B64(p.rope) if isinstance(p, BS) else p) for p in v.pieces]
    elif isinstance(v, SBytes):
        ps = list(norm(v.rope))
    else:
        raise Unsupported('b64decode')
    ps = [p for p in ps if not (isinstance(p, bytes) and not strict and not any(c in ALPHABET for c in p))]
    if len(ps) == 1 and isinstance(ps[0], B64):
        return mk_bytes(ps[0].rope)
    if len(ps) == 1 and isinstance(ps[0], (Raw, ZS)):
        p = ps[0]
        srt = BYTES if isinstance(p, Raw) else S
        ok = z3.Function('base64.valid', srt, B) if srt is BYTES else z3.Function('base64.valid.text', srt, B)
        val = z3.Function('base64.value', srt, BYTES) if srt is BYTES else z3.Function('base64.value.text', srt, BYTES)
        if not interp.ctx.branch(ok(p.t)):
            interp.raise_py(binascii.Error('Incorrect padding'))
        return mk_bytes([Raw(val(p.t))])
    if all(isinstance(p, (bytes, B64, Raw, ZS)) for p in ps):
        if interp.ctx.branch(z3.Bool(interp.ctx.name('base64ok'))):
            return mk_bytes([fresh_raw(interp, None, 'garbled')])
        interp.raise_py(binascii.Error('Incorrect padding'))
    raise Unsupported('b64decode')


def struct_method(interp, obj, name, args, kwargs):
    if name == 'pack':
        return pack(interp, obj, args)
    if name == 'unpack':
        return unpack(interp, obj, args[0])
    if name == 'unpack_from':
        return unpack_from(interp, obj, args, kwargs)
    raise Unsupported('Struct.%s' % name)


def unpack_from(interp, fmt, args, kwargs):
    data = args[0]
    off = args[1] if len(args) > 1 else kwargs.get('offset', 0)
    if not isinstance(fmt, Sym) and not isinstance(data, Sym) and not isinstance(off, Sym):
        return interp.native(struct.unpack_from, [fmt.format if isinstance(fmt, struct.Struct) else fmt, data, off])
    n = calcsize(interp, fmt)
    rope = rope_of(data)
    o = int_term(off)
    if not interp.ctx.branch(z3.And(o >= 0, length(interp, rope) >= o + n)):
        interp.raise_py(struct.error('unpack_from requires a larger buffer'))
    _, rest = split(interp, rope, o)
    head, _ = split(interp, rest, n)
    return unpack(interp, fmt, mk_bytes(head))


def install(interp):
    M = interp.model
    M(struct.pack, lambda i, a, k: pack(i, a[0], a[1:]))
    M(struct.unpack, lambda i, a, k: unpack(i, a[0], a[1]))
    M(struct.unpack_from, lambda i, a, k: unpack_from(i, a[0], a[1:], k))
    M(struct.calcsize, lambda i, a, k: mk_int(calcsize(i, a[0])) if isinstance(a[0], Sym) else i.native(struct.calcsize, a))
    M(base64.b64encode, b64encode)
    M(base64.b64decode, b64decode)
    M(base64.standard_b64encode, b64encode)
    M(base64.standard_b64decode, b64decode)
