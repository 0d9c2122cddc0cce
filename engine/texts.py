"""Strings that are slices of a text of unknown content (SText): code points ch(i), length n.

Character classes are exact for ASCII and uninterpreted beyond it (with the inclusions CPython guarantees).  Case
mapping is only compared with ASCII literals; the text is assumed free of the few non-ASCII characters whose case
mapping yields ASCII letters (U+0130, U+0131, U+017F, U+212A, sharp s and the Latin ligatures)."""
import z3

from .core import Unsupported
from .values import *

_cls = {}


def ucls(name):
    if name not in _cls:
        _cls[name] = z3.Function('unicode.' + name, I, B)
    return _cls[name]


def rng(c, *rs):
    return z3.Or([c == a if a == b else z3.And(c >= a, c <= b) for a, b in rs])


def is_alpha(c):
    return z3.If(c < 128, rng(c, (65, 90), (97, 122)), ucls('alpha')(c))


def is_decimal(c):
    return z3.If(c < 128, rng(c, (48, 57)), z3.And(ucls('digit')(c), ucls('decimal')(c), z3.Not(ucls('alpha')(c))))


def is_digit(c):
    return z3.If(c < 128, rng(c, (48, 57)), z3.And(ucls('digit')(c), z3.Not(ucls('alpha')(c))))


def is_numeric(c):
    return z3.If(c < 128, rng(c, (48, 57)), z3.Or(ucls('numeric')(c), z3.And(ucls('digit')(c), z3.Not(ucls('alpha')(c)))))


def is_space(c):
    return z3.If(c < 128, rng(c, (9, 13), (28, 32)),
                 z3.And(ucls('space')(c), z3.Not(ucls('alpha')(c)), z3.Not(ucls('digit')(c))))


def is_alnum(c):
    return z3.Or(is_alpha(c), is_decimal(c), is_digit(c), is_numeric(c))


CLASS = {'isalpha': is_alpha, 'isdigit': is_digit, 'isspace': is_space, 'isdecimal': is_decimal,
         'isnumeric': is_numeric, 'isalnum': is_alnum,
         'isascii': lambda c: c < 128,
         'isupper': lambda c: z3.If(c < 128, rng(c, (65, 90)), ucls('upper')(c)),
         'islower': lambda c: z3.If(c < 128, rng(c, (97, 122)), ucls('lower')(c)),
         'isprintable': lambda c: z3.If(c < 128, rng(c, (32, 126)), ucls('printable')(c)),
         'isidentifier': lambda c: z3.If(c < 128, rng(c, (65, 90), (97, 122), (95, 95)), ucls('idstart')(c))}


def single(v):
    """The one slice a string consists of."""
    if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], SL):
        return v.pieces[0]
    return None


def char(interp, v):
    """Code point term of a string of length one (None when it is not known to have that length)."""
    if isinstance(v, str):
        return z3.IntVal(ord(v)) if len(v) == 1 else None
    p = single(v)
    if p is None or p.mode is not None:
        return None
    if z3.is_int_value(z3.simplify(p.j - p.i)):
        ok = z3.simplify(p.j - p.i).as_long() == 1
    else:
        ok = interp.ctx.entails(p.j == p.i + 1)
    return p.text.ch(z3.simplify(p.i)) if ok else None


def case_char(c, mode, lit):
    """Does the character with code c, case-mapped, give the ASCII character lit?"""
    last = (mode or '').split('+')[-1]
    o = ord(lit)
    if last == '':
        return c == o
    if o >= 128:
        raise Unsupported('case mapping against a non-ASCII character')
    if last in ('lower', 'casefold'):
        if 'A' <= lit <= 'Z':
            return z3.BoolVal(False)
        return z3.Or(c == o, c == ord(lit.upper())) if lit.isalpha() else c == o
    if last == 'upper':
        if 'a' <= lit <= 'z':
            return z3.BoolVal(False)
        return z3.Or(c == o, c == ord(lit.lower())) if lit.isalpha() else c == o
    raise Unsupported('case mapping %s' % mode)


def spells(interp, pieces, lit):
    """Formula: the concatenation of pieces equals the literal."""
    pieces = list(pieces)
    if not pieces:
        return z3.BoolVal(lit == '')
    p = pieces[0]
    if isinstance(p, str):
        if not lit.startswith(p):
            return z3.BoolVal(False)
        return spells(interp, pieces[1:], lit[len(p):])
    if not isinstance(p, SL):
        raise Unsupported('string equality')
    out = []
    for k in ([len(lit)] if len(pieces) == 1 else range(len(lit) + 1)):
        here = [p.j == p.i + k] + [case_char(p.text.ch(z3.simplify(p.i + x)), p.mode, lit[x]) for x in range(k)]
        rest = spells(interp, pieces[1:], lit[k:]) if len(pieces) > 1 else z3.BoolVal(True)
        out.append(z3.And(here + [rest]))
    return z3.Or(out)


def slice_eq(interp, pa, pb):
    if all(isinstance(p, str) for p in pb):
        return mk_bool(spells(interp, pa, ''.join(pb)))
    if all(isinstance(p, str) for p in pa):
        return mk_bool(spells(interp, pb, ''.join(pa)))
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], SL) and isinstance(pb[0], SL):
        a, b = pa[0], pb[0]
        if a.text is b.text and (a.mode or '') == (b.mode or ''):
            if interp.ctx.entails(z3.Or(z3.And(a.i == b.i, a.j == b.j), z3.And(a.i == a.j, b.i == b.j))):
                return True
            if a.mode is None and interp.ctx.entails(a.j - a.i != b.j - b.i):
                return False
            if a.mode is None:
                ca, cb = char(interp, mk_str([a])), char(interp, mk_str([b]))
                if ca is not None and cb is not None:
                    return mk_bool(ca == cb)
                k = z3.Int(interp.ctx.name('k'))
                return mk_bool(z3.And(a.j - a.i == b.j - b.i,
                                      z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a.j - a.i),
                                                                a.text.ch(a.i + k) == b.text.ch(b.i + k)))))
    raise Unsupported('equality of text slices')


def slice_order(interp, name, a, b):
    ca, cb = char(interp, a), char(interp, b)
    if ca is None or cb is None:
        raise Unsupported('order of text slices')
    import operator
    return mk_bool(getattr(operator, name)(ca, cb))


def startswith(interp, s, name, p, start=None):
    q = single(s)
    if q is None or not isinstance(p, str):
        raise Unsupported('%s on text' % name)
    i = q.i
    if start is not None:
        if name != 'startswith' or not interp.ctx.entails(int_term(start) >= 0):
            raise Unsupported('%s on text' % name)
        i = q.i + int_term(start)
    if q.mode is not None:
        raise Unsupported('%s on case-mapped text' % name)
    k = len(p)
    if name == 'endswith':
        i = q.j - k
    lo = q.j - i >= k if name == 'startswith' else q.j - q.i >= k
    return mk_bool(z3.And([lo] + [q.text.ch(z3.simplify(i + x)) == ord(p[x]) for x in range(k)]))


def method(interp, s, name, args):
    if name in ('strip', 'lstrip', 'rstrip'):
        if all(isinstance(p, (str, ZS)) for p in str_pieces(s)) and (not args or isinstance(args[0], str)):
            # an unspecified function of the text
            return mk_str([ZS(z3.Function('str.%s(%r)' % (name, args[0] if args else None), S, S)(str_z3(s)))])
        raise Unsupported('str.%s on text' % name)
    p = single(s)
    if p is None:
        raise Unsupported('str.%s on a compound string' % name)
    c = char(interp, s)
    if c is not None:
        return mk_bool(CLASS[name](c))
    if p.mode is not None or name in ('isupper', 'islower', 'isidentifier'):
        raise Unsupported('str.%s on text' % name)
    if z3.simplify(p.i).eq(z3.simplify(p.j)):
        return name in ('isascii', 'isprintable')
    k = z3.Int(interp.ctx.name('k'))
    f = z3.ForAll([k], z3.Implies(z3.And(p.i <= k, k < p.j), CLASS[name](p.text.ch(k))))
    if name not in ('isascii', 'isprintable'):
        f = z3.And(p.j > p.i, f)
    return mk_bool(f)


def getitem(interp, obj, idx):
    from . import models
    if isinstance(obj, str):
        raise Unsupported('literal indexed by an unknown position')
    p = single(obj)
    if isinstance(idx, slice) and idx.step in (None, 1) and idx.stop is None and isinstance(idx.start, int) and \
            isinstance(obj, SStr) and isinstance(obj.pieces[0], str) and 0 <= idx.start <= len(obj.pieces[0]):
        return mk_str([obj.pieces[0][idx.start:]] + list(obj.pieces[1:]))
    if p is None or p.mode is not None:
        raise Unsupported('subscript of a compound string')
    n = z3.simplify(p.j - p.i)
    if isinstance(idx, slice):
        if idx.step not in (None, 1):
            raise Unsupported('slice step')
        lo = settle(interp, models.clamp(interp, idx.start, n, z3.IntVal(0)))
        hi = settle(interp, models.clamp(interp, idx.stop, n, n))
        if not interp.ctx.entails(lo <= hi):
            if not interp.ctx.branch(lo <= hi):
                return ''
        return mk_str([SL(p.text, z3.simplify(p.i + lo), z3.simplify(p.i + hi))])
    if not isinstance(idx, (int, SInt)):
        interp.raise_py(TypeError('string indices must be integers'))
    k = z3.simplify(p.i + models.norm_index(interp, idx, n))
    return mk_str([SL(p.text, k, z3.simplify(k + 1))])


def settle(interp, t):
    """Resolve conditionals at the top of a term by the path condition."""
    t = z3.simplify(t)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        t = t.arg(1) if interp.ctx.branch(t.arg(0)) else t.arg(2)
    return t


def number(interp, v, kind):
    """int(s) / float(s): an uninterpreted value of the slice, or ValueError."""
    p = single(v)
    if p is None or p.mode is not None:
        raise Unsupported('%s() of a compound string' % kind.__name__)
    ok, val = number_terms(interp, p.text, p.i, p.j, kind)
    if not interp.ctx.branch(ok):
        interp.raise_py(ValueError('invalid literal'))
    return mk_int(val) if kind is int else SReal(val)


def number_terms(interp, text, i, j, kind):
    i, j = z3.simplify(i), z3.simplify(j)
    ok = z3.Function('%s.is_%s' % (text.name, kind.__name__), I, I, B)
    val = z3.Function('%s.%s' % (text.name, kind.__name__), I, I, I if kind is int else R)
    neg = z3.And(j > i + 1, text.ch(i) == 45, is_digit(text.ch(z3.simplify(i + 1))))
    interp.ctx.assume(z3.Implies(neg, z3.And(ok(i, j) == ok(z3.simplify(i + 1), j),
                                             val(i, j) == -val(z3.simplify(i + 1), j))))
    return ok(i, j), val(i, j)


def ord_(interp, v):
    c = char(interp, v)
    if c is None:
        raise Unsupported('ord of a text slice')
    return mk_int(c)


def char_in(interp, x, c):
    t = char(interp, x)
    if t is None:
        p = single(x)
        if p is not None and isinstance(c, str):
            subs = {c[a:b] for a in range(len(c) + 1) for b in range(a, len(c) + 1)}
            if len(subs) <= 80:
                return interp.any_of([mk_bool(spells(interp, x.pieces, s)) for s in sorted(subs)])
        raise Unsupported('substring test')
    if isinstance(c, str):
        return mk_bool(z3.Or([t == ord(y) for y in sorted(set(c))]) if c else z3.BoolVal(False))
    raise Unsupported('substring test')
