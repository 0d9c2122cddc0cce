"""Models of the Python builtins and container/string methods used by the code under verification.

Everything here is *assumed* semantics of CPython (trusted base); the CPython cross-check of every spec exercises it.
"""
import ast
import builtins
import enum
import operator
import struct
import types
import z3

from .core import Unsupported, PathKill, Signal
from .values import *
from .interp import (Interp, Seg, OVERLAY, NOTHANDLED, has_seg, FuncVal, BoundMethod, SymMethod, GenVal, ModelFn, mark,
                     is_repo_class, is_repo_func, Frame)


def rope(v):
    return type(v).__name__ in ('SBytes', 'SByteArray')


# ------------------------------------------------------------------------------------------------ strings
class OP:
    """String piece with unknown content (rendering of some value in a message)."""
    __slots__ = ('what',)

    def __init__(self, what=''):
        self.what = what


class RS:
    """String piece: str()/repr() rendering of a float term or another injective rendering."""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind, self.t = kind, t


def concat_str(interp, parts):
    out = []
    for p in parts:
        out.extend(str_pieces(p))
    return mk_str(out)


def map_pieces(v, lit, zs, mode):
    out = []
    for p in str_pieces(v):
        if isinstance(p, str):
            out.append(lit(p))
        elif isinstance(p, ZS):
            out.append(ZS(zs(p.t)))
        elif isinstance(p, SL):
            out.append(SL(p.text, p.i, p.j, mode if p.mode is None or p.mode == mode else p.mode + '+' + mode))
        elif isinstance(p, (IS, OP)):
            out.append(p)
        else:
            raise Unsupported('case mapping')
    return mk_str(out)


ASCII_CASE = [False]     # names assumed ASCII: lower(upper(x)) is lower(x)


def lower_term(t):
    if z3.is_app(t) and t.decl().eq(LOWER):
        return t
    if ASCII_CASE[0] and z3.is_app(t) and t.decl().eq(UPPER):
        return LOWER(t.arg(0))
    if z3.is_string_value(t):
        return zlit(zstr_value(t).lower())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), lower_term(t.arg(1)), lower_term(t.arg(2)))
    return LOWER(t)


def upper_term(t):
    if z3.is_app(t) and t.decl().eq(UPPER):
        return t
    if ASCII_CASE[0] and z3.is_app(t) and t.decl().eq(LOWER):
        return UPPER(t.arg(0))
    if z3.is_string_value(t):
        return zlit(zstr_value(t).upper())
    return UPPER(t)


def lower(v):
    if isinstance(v, str):
        return v.lower()
    return map_pieces(v, str.lower, lower_term, 'lower')


def upper(v):
    if isinstance(v, str):
        return v.upper()
    return map_pieces(v, str.upper, upper_term, 'upper')


def _piece_same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, str):
        return a == b
    if isinstance(a, (ZS, IS)):
        return a.t.eq(b.t) or z3.is_true(z3.simplify(a.t == b.t))
    if isinstance(a, RS):
        return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, SL):
        return a.text is b.text and a.mode == b.mode and z3.is_true(z3.simplify(z3.And(a.i == b.i, a.j == b.j)))
    return a is b


def str_eq(interp, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = list(str_pieces(a)), list(str_pieces(b))
    # strip common prefix and suffix
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if x[:k] != y[:k]:
                return False
            pa[0], pb[0] = x[k:], y[k:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        if _piece_same(x, y):
            pa.pop(0)
            pb.pop(0)
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if x[len(x) - k:] != y[len(y) - k:]:
                return False
            pa[-1], pb[-1] = x[:len(x) - k], y[:len(y) - k]
            if not pa[-1]:
                pa.pop()
            if not pb[-1]:
                pb.pop()
            continue
        if _piece_same(x, y):
            pa.pop()
            pb.pop()
            continue
        break
    if not pa and not pb:
        return True
    if (not pa or not pb) and any(isinstance(p, IS) or isinstance(p, str) and p for p in pa + pb):
        return False                # the empty text against one with a number or a character in it
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], IS) and isinstance(pb[0], IS):
        return mk_bool(pa[0].t == pb[0].t)
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], RS) and isinstance(pb[0], RS) and pa[0].kind == pb[0].kind:
        return mk_bool(pa[0].t == pb[0].t)
    if len(pa) == 1 and len(pb) == 1:
        from . import ropes
        if type(pa[0]) is ropes.BS and type(pb[0]) is ropes.BS:      # base64 is one-to-one
            return ropes.rope_eq(interp, pa[0].rope, pb[0].rope)
    if all(isinstance(p, (str, ZS)) for p in pa + pb):
        return mk_bool(str_z3(mk_str(pa)) == str_z3(mk_str(pb)))
    # text slices against literals
    if any(isinstance(p, SL) for p in pa + pb):
        from . import texts
        return texts.slice_eq(interp, pa, pb)
    # number text against a literal that is not a number
    for p, q in ((pa, pb), (pb, pa)):
        if len(p) == 1 and isinstance(p[0], IS) and len(q) == 1 and isinstance(q[0], str):
            try:
                n = int(q[0])
            except ValueError:
                return False
            if str(n) != q[0]:
                return False
            return mk_bool(p[0].t == n)
    raise Unsupported('string equality %r %r' % (a, b))


def str_order(interp, name, a, b):
    f = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}[name]
    for v in (a, b):
        if isinstance(v, SStr) and len(v.pieces) == 1 and isinstance(v.pieces[0], SL):
            from . import texts
            return texts.slice_order(interp, name, a, b)
    return mk_bool(f(str_z3(a), str_z3(b)))


def format_value(interp, x, spec='', conversion=-1):
    if isinstance(x, str) and conversion in (-1, 115) and not spec:
        return x
    if isinstance(x, SStr):
        if not spec and conversion in (-1, 115):
            return x
        return mk_str([OP('formatted')])
    if isinstance(spec, Sym):
        return mk_str([OP('formatted')])
    if conversion in (-1, 115):
        if isinstance(x, SInt) and spec in ('', 'd'):
            return mk_str([IS(x.t)])
        if not contains_sym(x, 4) and type(x).__module__ == 'builtins' and not has_repo(x):
            return interp.native(format, [str(x) if conversion == 115 else x, spec])
        if not spec and not isinstance(x, Sym):
            m = interp.class_attr(type(x), '__str__')
            if isinstance(m, types.FunctionType) and is_repo_func(m) and not isinstance(x, BaseException):
                try:
                    return interp.call(m, [x])
                except Unsupported:
                    pass
            if isinstance(x, enum.Enum):
                return interp.native(str, [x])
    return mk_str([OP('formatted')])


def has_repo(x):
    if isinstance(x, (list, tuple, set)):
        return any(type(e).__module__ != 'builtins' for e in x)
    if isinstance(x, dict):
        return any(type(e).__module__ != 'builtins' for e in x.values())
    return False


def str_format(interp, fmt, args, kwargs):
    import string
    out = []
    auto = 0
    if isinstance(fmt, Sym):
        return mk_str([OP('format')])
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        head = field.split('.')[0].split('[')[0]
        if head == '':
            v = args[auto] if auto < len(args) else interp.raise_py(IndexError('format'))
            auto += 1
        elif head.isdigit():
            v = args[int(head)]
        else:
            if head not in kwargs:
                interp.raise_py(KeyError(head))
            v = kwargs[head]
        rest = field[len(head):]
        if rest:
            if rest.startswith('.') and '[' not in rest:
                for part in rest[1:].split('.'):
                    v = interp.load_attr(v, part)
            else:
                raise Unsupported('format field')
        out.append(format_value(interp, v, spec or '', ord(conv) if conv else -1))
    return concat_str(interp, out)


def percent_format(interp, fmt, args):
    if isinstance(fmt, Sym):
        return mk_str([OP('format')])
    if not isinstance(args, tuple):
        args = (args,)
    import re
    out = []
    pos = 0
    k = 0
    SPEC = r'%(%|[sdr]|0?\.?\d*[xX])'
    for m in re.finditer(SPEC, fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        if k >= len(args):
            interp.raise_py(TypeError('not enough arguments for format string'))
        v = args[k]
        k += 1
        if m.group(1) == 'd' and not isinstance(v, (int, float, SInt, SReal)):
            interp.raise_py(TypeError('%d format: a real number is required'))
        if m.group(1)[-1] in 'xX':
            if pytype_of(v) not in (int, bool):
                interp.raise_py(TypeError('%x format: an integer is required'))
            out.append(mk_str([ZS(z3.Function('format.' + m.group(0), z3.IntSort(), z3.StringSort())(int_term(v)))])
                       if isinstance(v, Sym) else m.group(0) % v)
            continue
        out.append(format_value(interp, v, '', 114 if m.group(1) == 'r' else -1))
    if '%' in re.sub(SPEC, '', fmt):
        return mk_str([OP('format')])
    out.append(fmt[pos:])
    return concat_str(interp, out)


def to_str(interp, v):
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, SAtom):
        v = interp.force_atom(v)
        return to_str(interp, v)
    if isinstance(v, SInt):
        return mk_str([IS(v.t)])
    if isinstance(v, SBool):
        return 'True' if interp.truth(v) else 'False'
    if isinstance(v, SReal):
        return mk_str([RS('float', v.t)])
    if isinstance(v, SEnum):
        m = interp.class_attr(v.cls, '__str__')
        if isinstance(m, types.FunctionType) and is_repo_func(m):
            return interp.call(m, [v])
        return mk_str([OP('enum')])
    if isinstance(v, Sym) or contains_sym(v, 4):
        h = getattr(v, 'to_str', None)
        if h is not None:
            return h(interp)
        return mk_str([OP('str')])
    m = interp.class_attr(type(v), '__str__')
    if isinstance(m, types.FunctionType) and is_repo_func(m):
        return interp.call(m, [v])
    if m is None or m is object.__str__:
        m = interp.class_attr(type(v), '__repr__')
        if isinstance(m, types.FunctionType) and is_repo_func(m):
            return interp.call(m, [v])
    if type(v).__module__ != 'builtins' and not isinstance(v, (enum.Enum, BaseException)):
        if getattr(type(v), '__pyvc_native__', False):
            return interp.native(str, [v])
        return mk_str([OP('str')])
    if has_repo(v):
        return mk_str([OP('str')])
    return interp.native(str, [v])


def str_method(interp, s, name, args, kwargs):
    """Methods of strings where receiver or an argument is symbolic."""
    if name == 'lower':
        return lower(s)
    if name == 'casefold':
        if isinstance(s, str):
            return s.casefold()
        if all(isinstance(p, (SL, str)) for p in s.pieces):
            return map_pieces(s, str.casefold, None, 'casefold')
        raise Unsupported('casefold')
    if name == 'upper':
        return upper(s)
    if name == 'format':
        return str_format(interp, s, args, kwargs)
    if name == 'join':
        if s == '' and isinstance(args[0], list) and has_seg(args[0]) and \
                all(type(x) is not Seg or hasattr(x.seq, 'joined') for x in args[0]):
            parts = [x.seq.joined() if type(x) is Seg else x for x in args[0]]
            if all(isinstance(x, (str, SStr)) for x in parts):
                return concat_str(interp, parts)
        it = interp.iterate(args[0])
        if it is None:
            if isinstance(args[0], DictView) and args[0].label == 'keys':
                return mk_str([OP('joined keys')])
            raise Unsupported('join of a symbolic sequence')
        out = []
        for i, x in enumerate(it):
            if i:
                out.append(s)
            if not isinstance(x, (str, SStr)):
                interp.raise_py(TypeError('sequence item %d: expected str instance' % i))
            out.append(x)
        return concat_str(interp, out)
    if name == 'encode':
        from . import ropes
        enc = args[0] if args else kwargs.get('encoding', 'utf-8')
        return ropes.encode_str(interp, s, enc)
    if name == 'startswith' and len(args) == 2 and isinstance(s, SStr) and any(isinstance(x, SL) for x in s.pieces):
        from . import texts
        pats = args[0] if isinstance(args[0], tuple) else (args[0],)
        return interp.any_of([texts.startswith(interp, s, name, p, args[1]) for p in pats])
    if name in ('startswith', 'endswith') and len(args) == 1:
        pats = args[0] if isinstance(args[0], tuple) else (args[0],)
        res = []
        for p in pats:
            if isinstance(s, SStr) and any(isinstance(x, SL) for x in s.pieces):
                from . import texts
                res.append(texts.startswith(interp, s, name, p))
                continue
            if isinstance(s, SStr) and isinstance(p, str) and isinstance(s.pieces[0 if name == 'startswith' else -1], str):
                lit = s.pieces[0 if name == 'startswith' else -1]
                if len(lit) >= len(p):
                    res.append(getattr(lit, name)(p))
                    continue
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            res.append(mk_bool(f(str_z3(p), str_z3(s))))
        return interp.any_of(res)
    if name == 'split':
        return str_split(interp, s, args, kwargs)
    if name == 'partition' and len(args) == 1 and isinstance(args[0], str) and args[0]:
        r = str_split(interp, s, [args[0], 1], {})
        if len(r) == 2:
            return (r[0], args[0], r[1])
        return (r[0], '', '')
    if name in ('strip', 'lstrip', 'rstrip', 'isdigit', 'isspace', 'isalpha', 'isalnum', 'isupper', 'islower',
                'isdecimal', 'isnumeric', 'isidentifier', 'isprintable', 'isascii', 'isnumeric'):
        from . import texts
        return texts.method(interp, s, name, args)
    if name == 'replace' or name == 'find' or name == 'count' or name == 'index':
        if name == 'find' and len(args) == 1:
            return mk_int(z3.IndexOf(str_z3(s), str_z3(args[0]), z3.IntVal(0)))
        raise Unsupported('str.%s' % name)
    raise Unsupported('str.%s on symbolic string' % name)


def str_split(interp, s, args, kwargs):
    """s.split(sep, 1): splits at the first separator."""
    sep = args[0] if args else kwargs.get('sep')
    mx = args[1] if len(args) > 1 else kwargs.get('maxsplit', -1)
    if not isinstance(sep, str) or len(sep) != 1 or not isinstance(mx, int):
        raise Unsupported('split')
    out = []
    cur = []
    pieces = list(str_pieces(s))
    while pieces:
        p = pieces.pop(0)
        if mx >= 0 and len(out) >= mx:
            cur.append(p)
            continue
        if isinstance(p, str):
            if sep in p:
                a, b = p.split(sep, 1)
                cur.append(a)
                out.append(mk_str(cur))
                cur = []
                pieces.insert(0, b)
            else:
                cur.append(p)
        elif isinstance(p, ZS):
            if interp.ctx.branch(z3.Contains(p.t, zlit(sep))):
                if mx != 1:
                    raise Unsupported('split of unknown string')
                i = z3.IndexOf(p.t, zlit(sep), z3.IntVal(0))
                cur.append(ZS(z3.SubString(p.t, 0, i)))
                out.append(mk_str(cur))
                cur = []
                pieces.insert(0, ZS(z3.SubString(p.t, i + 1, z3.Length(p.t) - i - 1)))
            else:
                cur.append(p)
        elif isinstance(p, IS):
            cur.append(p)
        elif type(p).__name__ == 'BS' and not (sep.isalnum() or sep in '+/='):
            cur.append(p)
        else:
            raise Unsupported('split')
    out.append(mk_str(cur))
    return out


# ------------------------------------------------------------------------------------------------ sets and membership
def make_set(interp, vals, pytype=set):
    vals = list(vals)
    for v in vals:
        c = pytype_of(v)
        if isinstance(v, (SAtoms, SSeq, SDict, list, dict, set)) or \
                (isinstance(c, type) and not isinstance(v, SAtom) and c.__hash__ is None):
            interp.raise_py(TypeError("unhashable type: '%s'" % getattr(c, '__name__', c)))
    if not any(isinstance(v, Sym) for v in vals):
        return interp.native(pytype, [vals])
    ts = [interp.atom_term(v) for v in vals]
    if any(t is None for t in ts):
        # finite set of symbolic values of other kinds: keep it as a list of candidates
        return FinSet(vals, pytype)
    null = next((v.null for v in vals if isinstance(v, SAtom)), None)
    return SAtoms(atom_set(ts), pytype, null)


class FinSet(Sym):
    """set([...]) of finitely many values some of which are symbolic and not atoms."""

    def __init__(self, vals, pytype=set):
        self.vals = vals
        self.pytype = pytype

    def truth(self, interp):
        return bool(self.vals)


def contains(interp, c, x):
    if isinstance(c, SAtoms):
        if isinstance(x, (list, set, dict)) and c.pytype in (set, frozenset):
            interp.raise_py(TypeError('unhashable type'))
        t = interp.atom_term(x)
        if t is None:
            if isinstance(x, (enum.Enum, SEnum)) or x is None:
                cls = pytype_of(x)
                if cls.__hash__ is None and c.pytype in (set, frozenset):
                    interp.raise_py(TypeError('unhashable type'))
                return False
            raise Unsupported('membership of %r' % (x,))
        return mk_bool(c.member(t))
    if isinstance(c, FinSet):
        return interp.any_of([interp.eq_or_is(e, x) for e in c.vals])
    if isinstance(c, dict) and OVERLAY in c:
        return sd_lookup(interp, c[OVERLAY], x) is not ABSENT
    if isinstance(c, SDict):
        return sd_lookup(interp, c, x) is not ABSENT
    if isinstance(c, dict):
        if isinstance(x, Sym):
            return interp.any_of([interp.eq(k, x) for k in c])
        return interp.native(operator.contains, [c, x])
    if isinstance(c, (list, tuple)) and not has_seg(c):
        return interp.any_of([interp.eq_or_is(e, x) for e in c])
    if isinstance(c, (set, frozenset)):
        if isinstance(x, Sym):
            return interp.any_of([interp.eq_or_is(e, x) for e in c])
        return interp.native(operator.contains, [c, x])
    if isinstance(c, SSeq) or isinstance(c, (list, tuple)):
        t = interp.atom_term(x)
        v = interp.as_atoms(c) if t is not None else None
        if v is not None:
            return mk_bool(v.member(t))
        from . import loops
        return loops.member(interp, c, x)
    if isinstance(c, (str, SStr)):
        if not isinstance(x, (str, SStr)):
            interp.raise_py(TypeError("'in <string>' requires string as left operand"))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(x, SStr) and any(isinstance(p, SL) for p in x.pieces):
            from . import texts
            return texts.char_in(interp, x, c)
        if isinstance(c, SStr) and any(not isinstance(p, (str, ZS)) for p in c.pieces):
            raise Unsupported('substring test')
        return mk_bool(z3.Contains(str_z3(c), str_z3(x)))
    if isinstance(c, range) and isinstance(x, SInt):
        if c.step != 1:
            raise Unsupported('range membership')
        return mk_bool(z3.And(x.t >= c.start, x.t < c.stop))
    if type(c).__name__ in ('dict_keys', 'dict_values'):
        return contains(interp, list(c), x)
    if isinstance(c, Sym):
        h = getattr(c, 'contains', None)
        if h is not None:
            return h(interp, x)
        if c.pytype in (int, float, bool):
            interp.raise_py(TypeError('argument is not iterable'))
        raise Unsupported('membership in %r' % c)
    m = interp.class_attr(type(c), '__contains__')
    if isinstance(m, types.FunctionType) and is_repo_func(m):
        return mk_bool(interp.truth(interp.call(m, [c, x])))
    if isinstance(x, Sym):
        if isinstance(c, type) and issubclass(c, enum.Enum):
            if isinstance(x, SEnum):
                return x.cls is c
            if isinstance(x, SInt):
                return mk_bool(z3.Or([x.t == m.value for m in c]))
        it = interp.iterate(c)
        if it is not None:
            return interp.any_of([interp.eq_or_is(e, x) for e in it])
        raise Unsupported('membership')
    if isinstance(c, GenVal):
        for e in interp.iterate(c):
            if interp.truth(interp.eq_or_is(e, x)):
                return True
        return False
    return interp.native(operator.contains, [c, x])


def set_binary(interp, name, a, b):
    x, y = interp.as_atoms(a), interp.as_atoms(b)
    if x is None or y is None:
        if not isinstance(b, (SAtoms, set, frozenset, list, tuple, SSeq)):
            interp.raise_py(TypeError('not iterable'))
        raise Unsupported('set operation')
    if name in ('issubset',):
        return mk_bool(z3.IsSubset(x.arr, y.arr))
    if name in ('issuperset',):
        return mk_bool(z3.IsSubset(y.arr, x.arr))
    if name == 'isdisjoint':
        return mk_bool(z3.SetIntersect(x.arr, y.arr) == z3.EmptySet(Atom))
    null = x.null or y.null
    if name in ('intersection', 'and'):
        return SAtoms(z3.SetIntersect(x.arr, y.arr), set, null)
    if name in ('union', 'or'):
        return SAtoms(z3.SetUnion(x.arr, y.arr), set, null)
    if name in ('difference', 'sub'):
        return SAtoms(z3.SetDifference(x.arr, y.arr), set, null)
    if name in ('symmetric_difference', 'xor'):
        return SAtoms(z3.SetUnion(z3.SetDifference(x.arr, y.arr), z3.SetDifference(y.arr, x.arr)), set, null)
    raise Unsupported('set.%s' % name)


SET_METHODS = ('issubset', 'issuperset', 'isdisjoint', 'intersection', 'union', 'difference', 'symmetric_difference')


# ------------------------------------------------------------------------------------------------ symbolic dicts
def sd_lookup(interp, d, key):
    if isinstance(key, (list, dict, set)):
        interp.raise_py(TypeError('unhashable'))
    h = getattr(d, 'lookup', None)
    if h is not None:
        return h(interp, key)
    for k, v in d.entries:
        if interp.truth(interp.eq_or_is(k, key)):
            return v
    if not d.unknown:
        return ABSENT
    h = getattr(d, 'accept', None)
    if h is not None and not h(key):
        return ABSENT
    v = d.factory(key) if d.factory else ABSENT
    if v is not ABSENT and d.may_be_absent and not interp.ctx.choose([True, False], 'present'):
        v = ABSENT
    interp.ctx.set_cell(d, 'entries', d.entries + ((key, v),))
    return v


def sd_store(interp, d, key, value):
    h = getattr(d, 'store', None)
    if h is not None:
        return h(interp, key, value)
    ents = list(d.entries)
    for n, (k, v) in enumerate(ents):
        if interp.truth(interp.eq_or_is(k, key)):
            ents[n] = (k, value)
            if v is ABSENT:      # re-insertion goes to the end
                del ents[n]
                ents.append((key, value))
            break
    else:
        ents.append((key, value))
    interp.ctx.journal.record('dict', d, None, lambda: None)
    interp.ctx.set_cell(d, 'entries', tuple(ents))


def sd_delete(interp, d, key):
    if sd_lookup(interp, d, key) is ABSENT:
        interp.raise_py(KeyError('key'))
    sd_store(interp, d, key, ABSENT)


def overlay(interp, d):
    if OVERLAY in d:
        return d[OVERLAY]
    s = SDict(unknown=False)
    s.entries = tuple(d.items())
    interp.ctx.touch(d)
    d.clear()
    d[OVERLAY] = s
    from . import loops
    loops.OWNERS[id(s)] = (s, d)
    return s


def dict_get(interp, d, key):
    """Value or ABSENT."""
    if isinstance(d, SDict):
        return sd_lookup(interp, d, key)
    if OVERLAY in d:
        return sd_lookup(interp, d[OVERLAY], key)
    if isinstance(key, Sym) or contains_sym(key, 2):
        for k, v in list(d.items()):
            if interp.truth(interp.eq(k, key)):
                return v
        return ABSENT
    try:
        return d[key] if key in d else ABSENT
    except Signal:
        raise
    except Exception as e:
        raise mark(e)


def dict_store(interp, d, key, value):
    if isinstance(d, SDict):
        return sd_store(interp, d, key, value)
    if OVERLAY in d:
        return sd_store(interp, d[OVERLAY], key, value)
    if contains_sym(key, 2):
        if isinstance(key, SEnum):
            # enum keys: overlay keyed by symbolic member
            pass
        return sd_store(interp, overlay(interp, d), key, value)
    interp.ctx.touch(d)
    interp.native(d.__setitem__, [key, value])


def dict_items(interp, d):
    if isinstance(d, dict) and OVERLAY in d:
        d = d[OVERLAY]
    if isinstance(d, SDict):
        if d.unknown:
            h = getattr(d, 'items_view', None)
            if h is not None:
                return h(interp)
            raise Unsupported('iteration over an unknown dict')
        return [(k, v) for k, v in d.entries if v is not ABSENT]
    return list(d.items())


class DictView(SSeq):
    """items(), keys() or values() of a dict of unknown contents."""

    def __init__(self, items, name):
        pick = {'items': lambda kv: kv, 'keys': lambda kv: kv[0], 'values': lambda kv: kv[1]}[name]
        if name == 'keys' and hasattr(items, 'key_at'):
            g = items.key_at
        else:
            g = lambda i: pick(items.at(i))
        SSeq.__init__(self, items.n, g, list, name)
        self.items = items


def dict_method(interp, d, name, args, kwargs):
    if name == 'get':
        v = dict_get(interp, d, args[0])
        if v is ABSENT:
            return args[1] if len(args) > 1 else kwargs.get('default')
        return v
    if name == '__getitem__':
        return load_sub(interp, d, args[0])
    if name == '__contains__':
        return contains(interp, d, args[0])
    if name == '__setitem__':
        return dict_store(interp, d, args[0], args[1])
    if name == 'setdefault':
        v = dict_get(interp, d, args[0])
        if v is ABSENT:
            v = args[1] if len(args) > 1 else None
            dict_store(interp, d, args[0], v)
        return v
    if name == 'pop':
        v = dict_get(interp, d, args[0])
        if v is ABSENT:
            if len(args) > 1:
                return args[1]
            interp.raise_py(KeyError('key'))
        del_sub(interp, d, args[0])
        return v
    if name in ('items', 'keys', 'values'):
        its = dict_items(interp, d)
        if isinstance(its, SSeq):
            return DictView(its, name)
        if not isinstance(its, list):
            raise Unsupported('dict.%s' % name)
        if name == 'items':
            return list(its)
        return [k if name == 'keys' else v for k, v in its]
    if name == 'update':
        for a in args:
            if isinstance(a, (dict, SDict)):
                for k, v in dict_items(interp, a):
                    dict_store(interp, d, k, v)
            else:
                it = interp.iterate(a)
                if it is None:
                    raise Unsupported('dict.update')
                for p in it:
                    k, v = list(interp.iterate(p))
                    dict_store(interp, d, k, v)
        for k, v in kwargs.items():
            dict_store(interp, d, k, v)
        return None
    if name == 'copy':
        out = {}
        for k, v in dict_items(interp, d):
            dict_store(interp, out, k, v)
        return out
    if name == 'clear':
        if isinstance(d, SDict):
            raise Unsupported('clear')
        interp.ctx.touch(d)
        d.clear()
        return None
    return NOTHANDLED


# ------------------------------------------------------------------------------------------------ native containers
def native_method(interp, obj, name, args, kwargs):
    ctx = interp.ctx
    if isinstance(obj, list):
        if name == 'append':
            ctx.touch(obj)
            obj.append(args[0])
            return None
        if name == 'extend':
            if isinstance(args[0], GenVal) and is_symbolic_iter(interp, args[0].first):
                from . import loops
                args = [loops.gen_comprehension(interp, args[0], 'list')]
            it = interp.iterate(args[0])
            if it is None:
                ctx.touch(obj)
                if isinstance(args[0], (list, tuple)):
                    obj.extend(list(args[0]))
                else:
                    obj.append(Seg(interp.as_seq(args[0])))
            else:
                vals = list(it)
                ctx.touch(obj)
                obj.extend(vals)
            return None
        if name in ('insert', 'clear', 'reverse') and not has_seg(obj) and not any(isinstance(a, Sym) for a in args[:1]):
            ctx.touch(obj)
            getattr(obj, name)(*args)
            return None
        if name == 'pop' and not has_seg(obj) and not any(isinstance(a, Sym) for a in args):
            ctx.touch(obj)
            return interp.native(obj.pop, args)
        if name == 'copy':
            return list(obj)
        if name == 'sort':
            r = sorted_(interp, [obj], kwargs)
            ctx.touch(obj)
            obj[:] = r
            return None
        if name in ('remove', 'index') and not has_seg(obj):
            for i, e in enumerate(obj):
                if interp.truth(interp.eq_or_is(e, args[0])):
                    if name == 'index':
                        return i
                    ctx.touch(obj)
                    del obj[i]
                    return None
            interp.raise_py(ValueError('not in list'))
        if name == 'count' and not has_seg(obj):
            t = 0
            for e in obj:
                r = interp.eq_or_is(e, args[0])
                t = interp.binop(ast.Add, t, mk_int(z3.If(bool_term(r), 1, 0)))
            return t
        if name == '__contains__':
            return contains(interp, obj, args[0])
        if has_seg(obj):
            raise Unsupported('list.%s on symbolic list' % name)
        return NOTHANDLED
    if isinstance(obj, dict):
        if OVERLAY in obj or contains_sym(obj, 1) or any(contains_sym(a, 2) for a in args):
            r = dict_method(interp, obj, name, args, kwargs)
            if r is NOTHANDLED:
                raise Unsupported('dict.%s' % name)
            return r
        if name in ('get', 'items', 'keys', 'values', 'copy', '__contains__', '__getitem__'):
            return NOTHANDLED
        ctx.touch(obj)
        return interp.native(getattr(obj, name), args, kwargs)
    if isinstance(obj, (set, frozenset)):
        if name in SET_METHODS and len(args) == 1 and contains_sym(args[0], 1):
            return set_binary(interp, name, obj, args[0])
        if name in ('add', 'discard', 'remove', 'update', 'clear', 'pop'):
            if any(contains_sym(a, 1) for a in args):
                raise Unsupported('set.%s with symbolic value' % name)
            ctx.touch(obj)
            return interp.native(getattr(obj, name), args, kwargs)
        return NOTHANDLED
    if isinstance(obj, str):
        if name == 'format' and (any(contains_sym(a, 4) or type(a).__module__ != 'builtins' or has_repo(a) for a in
                                     list(args) + list(kwargs.values()))):
            return str_format(interp, obj, args, kwargs)
        if name == 'join':
            a = args[0]
            if isinstance(a, (GenVal, Sym)) or contains_sym(a, 2):
                return str_method(interp, obj, name, args, kwargs)
            return NOTHANDLED
        if any(contains_sym(a, 2) for a in args):
            return str_method(interp, obj, name, args, kwargs)
        return NOTHANDLED
    if isinstance(obj, (bytes, bytearray)):
        from . import ropes
        return ropes.bytes_method(interp, obj, name, args, kwargs)
    if obj is int and name == 'from_bytes':
        from . import ropes
        return ropes.from_bytes(interp, args, kwargs)
    if isinstance(obj, struct.Struct):
        from . import ropes
        return ropes.struct_method(interp, obj, name, args, kwargs)
    if isinstance(obj, int) and not isinstance(obj, bool):
        if any(isinstance(a, Sym) for a in args):
            from . import ropes
            return ropes.int_method(interp, obj, name, args, kwargs)
        return NOTHANDLED
    if isinstance(obj, tuple):
        if name in ('index', 'count') and (contains_sym(obj, 1) or contains_sym(args, 1)):
            return native_method(interp, list(obj), name, args, kwargs)
        return NOTHANDLED
    return NOTHANDLED


def sym_method(interp, obj, name, args, kwargs):
    h = getattr(obj, 'method', None)
    if h is not None:
        r = h(interp, name, args, kwargs)
        if r is not NOTHANDLED:
            return r
    if isinstance(obj, SStr):
        return str_method(interp, obj, name, args, kwargs)
    if isinstance(obj, SDict):
        r = dict_method(interp, obj, name, args, kwargs)
        if r is not NOTHANDLED:
            return r
    if isinstance(obj, SAtoms) and obj.pytype in (set, frozenset):
        if name in SET_METHODS and len(args) == 1:
            return set_binary(interp, name, obj, args[0])
        if name == '__contains__':
            return contains(interp, obj, args[0])
        if name == 'copy':
            return SAtoms(obj.arr, obj.pytype, obj.null)
    if isinstance(obj, (SAtoms, SSeq)) and name == '__contains__':
        return contains(interp, obj, args[0])
    if isinstance(obj, SSeq) and name == 'copy':
        return [Seg(obj)]
    if isinstance(obj, SInt):
        from . import ropes
        return ropes.int_method(interp, obj, name, args, kwargs)
    if isinstance(obj, SReal) and name == 'is_integer':
        return mk_bool(z3.IsInt(obj.t))
    raise Unsupported('method %s of %r' % (name, obj))


# ------------------------------------------------------------------------------------------------ operators
def sym_binop(interp, opcls, a, b):
    num = (int, float, SInt, SReal, SBool)
    if isinstance(a, (str, SStr)) and opcls is ast.Mod:
        return percent_format(interp, a, b)
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and opcls is ast.Add:
        return concat_str(interp, [a, b])
    if isinstance(a, enum.IntEnum):
        a = int(a)
    if isinstance(b, enum.IntEnum):
        b = int(b)
    if isinstance(a, num) and isinstance(b, num):
        isreal = isinstance(a, (float, SReal)) or isinstance(b, (float, SReal))
        if opcls in (ast.Add, ast.Sub, ast.Mult):
            f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul}[opcls]
            if isreal:
                return SReal(z3.simplify(f(real_term(a), real_term(b))))
            return mk_int(f(int_term(a), int_term(b)))
        if opcls is ast.Div:
            if interp.truth(interp.eq(b, 0)):
                interp.raise_py(ZeroDivisionError())
            return SReal(real_term(a) / real_term(b))
        if not isreal and opcls in (ast.FloorDiv, ast.Mod) and isinstance(b, int) and b > 0:
            return mk_int(int_term(a) / b if opcls is ast.FloorDiv else int_term(a) % b)
        if not isreal and opcls is ast.BitAnd and type(a) is int:
            a, b = b, a
        if not isreal and type(b) is int and b >= 0:
            if opcls is ast.BitAnd and b & (b + 1) == 0:
                return mk_int(int_term(a) % (b + 1))
            if opcls in (ast.LShift, ast.RShift):
                return mk_int(int_term(a) * 2 ** b if opcls is ast.LShift else int_term(a) / 2 ** b)
        raise Unsupported('arithmetic %s' % opcls.__name__)
    if isinstance(a, (list, tuple, SSeq)) and isinstance(b, (list, tuple, SSeq)) and opcls is ast.Add:
        if pytype_of(a) is not pytype_of(b):
            interp.raise_py(TypeError('can only concatenate same sequence types'))
        def items(v):
            return [Seg(v)] if isinstance(v, SSeq) else list(v)
        r = items(a) + items(b)
        return r if pytype_of(a) is list else tuple(r)
    if rope(a) or rope(b):
        from . import ropes
        return ropes.binop(interp, opcls, a, b)
    if pytype_of(a) in (set, frozenset) and pytype_of(b) in (set, frozenset):
        n = {ast.BitAnd: 'and', ast.BitOr: 'or', ast.Sub: 'sub', ast.BitXor: 'xor'}.get(opcls)
        if n:
            return set_binary(interp, n, a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, int) and opcls is ast.Mult:
        return a * b
    if isinstance(a, (bytes, bytearray)) or isinstance(b, (bytes, bytearray)):
        from . import ropes
        return ropes.binop(interp, opcls, a, b)
    ta, tb = pytype_of(a), pytype_of(b)
    basic = (int, float, bool, str, list, tuple, set, dict, type(None), bytes)
    if ta in basic and tb in basic and ta is not tb:
        interp.raise_py(TypeError('unsupported operand type(s)'))
    raise Unsupported('%s of %r and %r' % (opcls.__name__, a, b))


def norm_index(interp, i, n):
    """Index term or raise IndexError."""
    it = int_term(i)
    if interp.ctx.branch(z3.And(it >= 0, it < n)):
        return z3.simplify(it)
    if interp.ctx.branch(z3.And(it < 0, it >= -n)):
        return z3.simplify(it + n)
    interp.raise_py(IndexError('index out of range'))


def clamp(interp, v, n, default):
    if v is None:
        return default
    t = int_term(v)
    t = z3.simplify(t)
    if interp.ctx.entails(z3.And(t >= 0, t <= n)):
        return t
    return z3.simplify(z3.If(t < 0, z3.If(t + n < 0, 0, t + n), z3.If(t > n, n, t)))


def load_sub(interp, obj, idx):
    if isinstance(obj, (dict, SDict)):
        v = dict_get(interp, obj, idx)
        if v is ABSENT:
            m = None if isinstance(obj, SDict) else getattr(type(obj), '__missing__', None)
            if m is not None:
                return interp.native(obj.__getitem__, [idx])
            interp.raise_py(KeyError('key' if contains_sym(idx, 2) else idx))
        return v
    if isinstance(obj, Sym):
        h = getattr(obj, 'getitem', None)
        if h is not None:
            return h(interp, idx)
    if isinstance(obj, SSeq) or (isinstance(obj, (list, tuple)) and
                                 (has_seg(obj) or isinstance(idx, SInt) or
                                  (isinstance(idx, slice) and contains_sym((idx.start, idx.stop, idx.step), 1)))):
        if isinstance(idx, slice):
            if idx.step not in (None, 1):
                raise Unsupported('slice step')
            if isinstance(obj, (list, tuple)) and has_seg(obj) and not isinstance(idx.start, Sym) and \
                    idx.stop is None and isinstance(idx.start, (int, type(None))):
                k = idx.start or 0
                if k >= 0 and not any(type(x) is Seg for x in obj[:k]):
                    return obj[k:]
            if idx.start is None and idx.stop is None:
                return [Seg(obj)] if isinstance(obj, SSeq) else obj[:]
            seq = interp.as_seq(obj)
            lo = clamp(interp, idx.start, seq.n, z3.IntVal(0))
            hi = clamp(interp, idx.stop, seq.n, seq.n)
            n = z3.simplify(z3.If(hi > lo, hi - lo, 0))
            return SSeq(n, lambda i: seq.at(lo + i), seq.pytype)
        if not isinstance(idx, (int, SInt)):
            interp.raise_py(TypeError('indices must be integers'))
        if isinstance(obj, (list, tuple)) and isinstance(idx, int) and idx >= 0 and idx < len(obj) and \
                not any(type(x) is Seg for x in obj[:idx + 1]):
            return obj[idx]
        if isinstance(obj, (list, tuple)) and isinstance(idx, int) and idx < 0 and -idx <= len(obj) and \
                not any(type(x) is Seg for x in obj[idx:]):
            return obj[idx]
        seq = interp.as_seq(obj)
        return seq.at(norm_index(interp, idx, seq.n))
    if isinstance(obj, SStr) or (isinstance(obj, str) and contains_sym((idx.start, idx.stop) if isinstance(idx, slice) else idx, 1)):
        from . import texts
        return texts.getitem(interp, obj, idx)
    if rope(obj) or (isinstance(obj, (bytes, bytearray)) and
                     contains_sym((idx.start, idx.stop) if isinstance(idx, slice) else idx, 1)):
        from . import ropes
        return ropes.getitem(interp, obj, idx)
    if isinstance(obj, (list, tuple, str, bytes, bytearray, range)):
        return interp.native(operator.getitem, [obj, idx])
    if isinstance(obj, SAtom):
        return load_sub(interp, interp.force_atom(obj), idx)
    if isinstance(obj, Sym):
        if obj.pytype in (int, float, bool):
            interp.raise_py(TypeError('object is not subscriptable'))
        raise Unsupported('subscript of %r' % obj)
    if isinstance(obj, enum.EnumMeta):
        if isinstance(idx, Sym):
            raise Unsupported('enum by symbolic name')
        return interp.native(operator.getitem, [obj, idx])
    m = interp.class_attr(type(obj), '__getitem__')
    if isinstance(m, types.FunctionType) and (is_repo_func(m) or getattr(m, '__pyvc_native__', False) or
                                              getattr(type(obj), '__pyvc_native__', False)):
        return interp.call(BoundMethod(m, obj), [idx]) if is_repo_func(m) else m(obj, idx)
    if contains_sym(idx, 2):
        raise Unsupported('subscript of %s' % type(obj).__name__)
    return interp.native(operator.getitem, [obj, idx])


def store_sub(interp, obj, idx, v):
    if isinstance(obj, (dict, SDict)):
        return dict_store(interp, obj, idx, v)
    if isinstance(obj, list) and not has_seg(obj) and isinstance(idx, int):
        interp.ctx.touch(obj)
        interp.native(obj.__setitem__, [idx, v])
        return
    if isinstance(obj, list) and not has_seg(obj) and isinstance(idx, slice) and not contains_sym((idx.start, idx.stop), 1):
        it = interp.iterate(v)
        vals = (list(v) if isinstance(v, (list, tuple)) else [Seg(interp.as_seq(v))]) if it is None else list(it)
        interp.ctx.touch(obj)
        interp.native(obj.__setitem__, [idx, vals])
        return
    if isinstance(obj, Sym):
        h = getattr(obj, 'setitem', None)
        if h is not None:
            return h(interp, idx, v)
    if isinstance(obj, (tuple, str, bytes, SStr)):
        interp.raise_py(TypeError('object does not support item assignment'))
    m = interp.class_attr(type(obj), '__setitem__')
    if isinstance(m, types.FunctionType):
        if is_repo_func(m):
            return interp.call(m, [obj, idx, v])
        if getattr(type(obj), '__pyvc_native__', False):
            return m(obj, idx, v)
    raise Unsupported('item store on %s' % type(obj).__name__)


def del_sub(interp, obj, idx):
    if isinstance(obj, SDict):
        return sd_delete(interp, obj, idx)
    if isinstance(obj, dict):
        if OVERLAY in obj:
            return sd_delete(interp, obj[OVERLAY], idx)
        if contains_sym(idx, 2):
            return sd_delete(interp, overlay(interp, obj), idx)
        interp.ctx.touch(obj)
        interp.native(obj.__delitem__, [idx])
        return
    if isinstance(obj, list) and not has_seg(obj) and not contains_sym(idx, 1) and not isinstance(idx, slice):
        interp.ctx.touch(obj)
        interp.native(obj.__delitem__, [idx])
        return
    if isinstance(obj, list) and isinstance(idx, slice) and not has_seg(obj):
        interp.ctx.touch(obj)
        interp.native(obj.__delitem__, [idx])
        return
    if rope(obj) or isinstance(obj, bytearray):
        from . import ropes
        return ropes.delitem(interp, obj, idx)
    raise Unsupported('del item')


# ------------------------------------------------------------------------------------------------ builtins
def isinstance_(interp, v, cls):
    if isinstance(cls, tuple):
        return interp.any_of([isinstance_(interp, v, c) for c in cls])
    if isinstance(cls, types.UnionType):
        return interp.any_of([isinstance_(interp, v, c) for c in cls.__args__])
    if not isinstance(cls, type):
        if isinstance(v, Sym):
            raise Unsupported('isinstance of unusual class')
        return interp.native(isinstance, [v, cls])
    if isinstance(v, SAtom):
        if cls is object:
            return True
        fs = []
        if issubclass(int, cls):
            fs.append(z3.And(Atom.is_Num(v.t), v.isint))
        if issubclass(float, cls):
            fs.append(z3.And(Atom.is_Num(v.t), z3.Not(v.isint)))
        if issubclass(str, cls):
            fs.append(Atom.is_Str(v.t))
        if isinstance(v.null, cls):
            fs.append(Atom.is_Null(v.t))
        return mk_bool(z3.Or(fs)) if fs else False
    if isinstance(v, (Poison, Lazy)):
        raise Unsupported('dead value')
    if isinstance(v, Sym):
        h = getattr(v, 'is_instance', None)
        if h is not None:
            return h(interp, cls)
        if v.pytype is None:
            raise Unsupported('isinstance of %r' % v)
        if isinstance(v, Opaque) and v.pytype is object and cls is not object:
            raise Unsupported('isinstance of opaque')
        return issubclass(v.pytype, cls)
    if isinstance(v, (FuncVal, BoundMethod)):
        return cls in (types.FunctionType, types.MethodType, object)
    return isinstance(v, cls)


def type_(interp, v):
    if isinstance(v, SAtom):
        v = interp.force_atom(v)
    if isinstance(v, Sym):
        if v.pytype in (None, object):
            raise Unsupported('type of %r' % v)
        return v.pytype
    return type(v)


def len_(interp, args, kw):
    v = args[0]
    if isinstance(v, (list, tuple)) and not has_seg(v):
        return len(v)
    if isinstance(v, dict):
        if OVERLAY in v:
            if getattr(v[OVERLAY], 'len', None) is not None:
                return v[OVERLAY].len(interp)
            return len(dict_items(interp, v))
        return len(v)
    if isinstance(v, SDict):
        return len(dict_items(interp, v))
    if isinstance(v, FinSet):
        raise Unsupported('len of set')
    if isinstance(v, SAtom):
        v = interp.force_atom(v)
        return len_(interp, [v], kw)
    if isinstance(v, SAtoms):
        raise Unsupported('len of a symbolic set')
    if isinstance(v, (SStr, SSeq, list, tuple)) or rope(v):
        return mk_int(interp.length_term(v))
    if isinstance(v, Sym):
        h = getattr(v, 'len', None)
        if h is not None:
            return h(interp)
        if v.pytype in (int, float, bool):
            interp.raise_py(TypeError('object has no len()'))
        raise Unsupported('len of %r' % v)
    m = interp.class_attr(type(v), '__len__')
    if isinstance(m, types.FunctionType) and is_repo_func(m):
        return interp.call(m, [v])
    return interp.native(len, [v])


def list_(interp, args, kw):
    if not args:
        return interp.alloc([])
    r = seq_of(interp, args[0], list)
    return interp.alloc(r) if isinstance(r, list) else r


def tuple_(interp, args, kw):
    if not args:
        return ()
    return seq_of(interp, args[0], tuple)


def seq_of(interp, v, ctor):
    if isinstance(v, GenVal) and is_symbolic_iter(interp, v.first):
        from . import loops
        r = loops.gen_comprehension(interp, v, 'list')
        return r if ctor is list or isinstance(r, Sym) else ctor(r)
    it = interp.iterate(v)
    if it is None:
        if isinstance(v, SAtoms):
            return SAtoms(v.arr, ctor, v.null)
        if isinstance(v, SStr):
            raise Unsupported('list of characters')
        if isinstance(v, (list, tuple)):
            return ctor(v)
        return ctor([Seg(interp.as_seq(v))])
    return ctor(it)


class KDict(Sym):
    """A dict with n entries (key(i), val(i)), keys pairwise different, nothing else known."""
    pytype = dict

    def __init__(self, n, key, val, label='dict'):
        self.n, self.key, self.val, self.label = n, key, val, label

    def show(self):
        return self.label

    def truth(self, interp):
        return interp.ctx.branch(self.n != 0)

    def len(self, interp):
        return mk_int(self.n)

    def iterate(self, interp):
        return None

    def as_seq(self, interp):
        return SSeq(self.n, self.key, list, 'keys of ' + self.label)

    def index(self, interp, key):
        """Index term of the key or None (branches)."""
        from . import loops
        h = getattr(key, 'pieces', None)
        i = getattr(key, 'index_in', None)
        if i is not None and i[0] is self:
            return i[1]
        ctx = interp.ctx
        i = z3.Int(ctx.name('i'))
        if ctx.choose([True, False], 'key present'):
            j = loops.witness(ctx, 'at')
            ctx.assume(z3.And(0 <= j, j < self.n))
            ctx.assume(bool_term(interp.eq(self.key(j), key)))
            if not ctx.feasible():
                raise PathKill()
            return j
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), z3.Not(bool_term(interp.eq(self.key(i), key))))))
        return None

    def contains(self, interp, key):
        return self.index(interp, key) is not None

    def getitem(self, interp, key):
        i = self.index(interp, key)
        if i is None:
            interp.raise_py(KeyError('key'))
        return self.val(i)

    def method(self, interp, name, args, kwargs):
        if name == 'get':
            i = self.index(interp, args[0])
            if i is None:
                return args[1] if len(args) > 1 else kwargs.get('default')
            return self.val(i)
        if name == 'keys':
            return self.as_seq(interp)
        if name == 'values':
            return SSeq(self.n, self.val, list, 'values of ' + self.label)
        if name == 'items':
            return SSeq(self.n, lambda i: (self.key(i), self.val(i)), list, 'items of ' + self.label)
        if name == '__getitem__':
            return self.getitem(interp, args[0])
        if name == '__contains__':
            return self.contains(interp, args[0])
        return NOTHANDLED


def is_symbolic_iter(interp, v):
    if isinstance(v, KDict):
        return True
    return isinstance(v, (SSeq, SAtoms, SStr)) or (isinstance(v, (list, tuple)) and has_seg(v))


def set_(interp, args, kw, pytype=set):
    if not args:
        return pytype()
    v = args[0]
    if isinstance(v, SAtoms):
        return SAtoms(v.arr, pytype, v.null)
    if isinstance(v, FinSet):
        return FinSet(v.vals, pytype)
    if isinstance(v, GenVal) and is_symbolic_iter(interp, v.first):
        from . import loops
        return loops.gen_comprehension(interp, v, 'set')
    it = interp.iterate(v)
    if it is None:
        a = interp.as_atoms(v)
        if a is None:
            raise Unsupported('set of %r' % (v,))
        return SAtoms(a.arr, pytype, a.null)
    return make_set(interp, list(it), pytype)


def dict_(interp, args, kw):
    d = interp.alloc({})
    if args:
        dict_method(interp, d, 'update', [args[0]], {})
    for k, v in kw.items():
        d[k] = v
    return d


def int_(interp, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, SAtom):
        v = interp.force_atom(v)
    if isinstance(v, SInt) and len(args) == 1:
        return v
    if isinstance(v, SBool):
        return mk_int(int_term(v))
    if isinstance(v, SReal):
        return mk_int(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if isinstance(v, SEnum) and issubclass(v.cls, int):
        return mk_int(v.t)
    if isinstance(v, SStr):
        if len(v.pieces) == 1 and isinstance(v.pieces[0], IS):
            return mk_int(v.pieces[0].t)
        from . import texts
        return texts.number(interp, v, int)
    if isinstance(v, Sym):
        h = getattr(v, 'to_int', None)
        if h is not None:
            return h(interp)
        interp.raise_py(TypeError('int() argument'))
    m = interp.class_attr(type(v), '__int__')
    if isinstance(m, types.FunctionType) and is_repo_func(m):
        return interp.call(m, [v])
    return interp.native(int, args, kw)


def float_(interp, args, kw):
    if not args:
        return 0.0
    v = args[0]
    if isinstance(v, SAtom):
        v = interp.force_atom(v)
    if isinstance(v, SReal):
        return v
    if isinstance(v, (SInt, SBool)):
        return SReal(real_term(v))      # exactness assumed for |n| < 2**53
    if isinstance(v, SStr):
        if len(v.pieces) == 1 and isinstance(v.pieces[0], RS) and v.pieces[0].kind == 'float':
            return SReal(v.pieces[0].t)
        from . import texts
        return texts.number(interp, v, float)
    if isinstance(v, Sym):
        h = getattr(v, 'to_float', None)
        if h is not None:
            return h(interp)
        interp.raise_py(TypeError('float() argument'))
    return interp.native(float, args, kw)


def bool_(interp, args, kw):
    if not args:
        return False
    if isinstance(args[0], SBool):
        return args[0]
    return interp.truth(args[0])


def range_(interp, args, kw):
    if not any(isinstance(a, Sym) for a in args):
        return interp.native(range, args)
    lo, hi, step = 0, None, 1
    if len(args) == 1:
        hi = args[0]
    else:
        lo, hi = args[0], args[1]
        if len(args) > 2:
            step = args[2]
    if step != 1:
        raise Unsupported('range step')
    l, h = int_term(lo), int_term(hi)
    n = z3.simplify(z3.If(h > l, h - l, 0))
    if interp.ctx.entails(h >= l):
        n = z3.simplify(h - l)
    return SSeq(n, lambda i: mk_int(l + i), list, 'range')


def enumerate_(interp, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    it = interp.iterate(args[0])
    if it is None:
        s = interp.as_seq(args[0])
        return SSeq(s.n, lambda i: (mk_int(i + int_term(start)), s.at(i)), list, 'enumerate')
    return enumerate(it, start)


def zip_(interp, args, kw):
    its = [interp.iterate(a) for a in args]
    if any(i is None for i in its):
        seqs = [interp.as_seq(a if not hasattr(a, '__next__') else list(a)) for a in args]
        n = seqs[0].n
        for s in seqs[1:]:
            n = z3.If(s.n < n, s.n, n)
        return SSeq(z3.simplify(n), lambda i: tuple(s.at(i) for s in seqs), list, 'zip')
    return iter(zip(*its, **kw))


def minmax(which):
    def f(interp, args, kw):
        vals = args
        if len(args) == 1:
            it = None if isinstance(args[0], GenVal) and interp.iterate(args[0].first) is None else interp.iterate(args[0])
            if it is None:
                return symbolic_minmax(interp, which, args[0], kw)
            vals = list(it)
            if not vals:
                if 'default' in kw:
                    return kw['default']
                interp.raise_py(ValueError('empty sequence'))
        key = kw.get('key')
        best = vals[0]
        for v in vals[1:]:
            a, b = (best, v) if key is None else (interp.call(key, [best]), interp.call(key, [v]))
            c = interp.order('lt', b, a) if which == 'min' else interp.order('gt', b, a)
            if isinstance(c, SBool) and key is None and isinstance(best, (int, SInt)) and isinstance(v, (int, SInt)) and \
                    not isinstance(best, bool) and not isinstance(v, bool):
                best = mk_int(z3.If(c.t, int_term(v), int_term(best)))
            elif interp.truth(c):
                best = v
        return best
    return f


def symbolic_minmax(interp, which, v, kw):
    """min/max of integers of unknown number: one of them, and beyond none of those that are looked at."""
    ctx = interp.ctx
    if set(kw) - {'default'}:
        raise Unsupported('%s of a symbolic sequence' % which)
    if isinstance(v, GenVal):
        from . import loops
        v = loops.gen_comprehension(interp, v, 'list')
    parts = list(v) if isinstance(v, (list, tuple)) else [Seg(interp.as_seq(v))]
    n = z3.simplify(sum([p.seq.n if type(p) is Seg else z3.IntVal(1) for p in parts], z3.IntVal(0)))
    if not ctx.branch(n >= 1):
        if 'default' in kw:
            return kw['default']
        interp.raise_py(ValueError('empty sequence'))

    def num(x):
        if type(x) is int or isinstance(x, SInt):
            return int_term(x)
        raise Unsupported('%s of %r' % (which, x))
    m = None
    src = ctx.choose(range(len(parts)), which)
    foc = getattr(interp, 'focus', None)
    if type(parts[src]) is Seg and foc is not None and parts[src].seq.n.eq(foc[1]):
        m = z3.Int(ctx.name(which))         # its own element is not looked at
        num(parts[src].seq.at(foc[0]))
    elif type(parts[src]) is Seg:
        w = z3.Int(ctx.name('at'))
        ctx.assume(z3.And(0 <= w, w < parts[src].seq.n))
        if not ctx.feasible():
            raise PathKill()
        m = num(parts[src].seq.at(w))
    else:
        m = num(parts[src])
    for p in parts:
        if type(p) is Seg:
            seen = [i for i, _ in p.seq.cache.values()]
            if foc is not None and p.seq.n.eq(foc[1]) and not any(foc[0].eq(i) for i in seen):
                seen.append(foc[0])
            for i in seen:
                x = num(p.seq.at(i))
                ctx.assume(z3.Implies(z3.And(0 <= i, i < p.seq.n), m <= x if which == 'min' else m >= x))
        else:
            x = num(p)
            ctx.assume(m <= x if which == 'min' else m >= x)
    return SInt(m)


def sorted_(interp, args, kw):
    it = interp.iterate(args[0])
    if it is None:
        raise Unsupported('sorted() of a symbolic sequence')
    vals = list(it)
    key, rev = kw.get('key'), kw.get('reverse', False)
    if not contains_sym(vals, 3) and key is None:
        return interp.native(sorted, [vals], {'reverse': rev})
    ks = [(v if key is None else interp.call(key, [v])) for v in vals]
    out = []
    for v, k in zip(vals, ks):
        pos = len(out)
        while pos > 0:
            o = interp.order('lt', k, out[pos - 1][0]) if not rev else interp.order('lt', out[pos - 1][0], k)
            if interp.truth(o):
                pos -= 1
            else:
                break
        out.insert(pos, (k, v))
    return [v for k, v in out]


def any_all(which):
    def f(interp, args, kw):
        v = args[0]
        if isinstance(v, GenVal) and is_symbolic_iter(interp, v.first):
            from . import loops
            return loops.quantifier(interp, v, which)
        it = interp.iterate(v)
        if it is None:
            from . import loops
            return loops.quantifier_seq(interp, v, which)
        if isinstance(v, (list, tuple)):
            return (interp.any_of if which == 'any' else interp.all_of)(list(v))
        for x in it:
            t = interp.truth(x)
            if t and which == 'any':
                return True
            if not t and which == 'all':
                return False
        return which == 'all'
    return f


def sum_(interp, args, kw):
    if isinstance(args[0], GenVal) and is_symbolic_iter(interp, args[0].first):
        raise Unsupported('sum over a symbolic sequence')
    it = interp.iterate(args[0])
    if it is None:
        raise Unsupported('sum over a symbolic sequence')
    t = args[1] if len(args) > 1 else kw.get('start', 0)
    for x in it:
        t = interp.binop(ast.Add, t, x)
    return t


def filter_(interp, args, kw):
    f, v = args
    it = interp.iterate(v)
    if it is None:
        from . import loops
        return loops.filtered(interp, v, lambda x: x if f is None else interp.call(f, [x]))
    out = []
    for x in it:
        if interp.truth(x if f is None else interp.call(f, [x])):
            out.append(x)
    return iter(out)


def map_(interp, args, kw):
    f = args[0]
    its = [interp.iterate(a) for a in args[1:]]
    if any(i is None for i in its):
        from . import loops
        if len(args) == 2:
            return loops.map_seq(interp, f, args[1])
        raise Unsupported('map over symbolic sequences')
    return iter([interp.call(f, list(xs)) for xs in zip(*its)])


def getattr_(interp, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported('getattr with symbolic name')
    try:
        return interp.load_attr(args[0], args[1])
    except AttributeError:
        if len(args) > 2:
            return args[2]
        raise


def hasattr_(interp, args, kw):
    try:
        interp.load_attr(args[0], args[1])
        return True
    except AttributeError:
        return False


def setattr_(interp, args, kw):
    if not isinstance(args[1], str):
        raise Unsupported('setattr')
    interp.store_attr(args[0], args[1], args[2])


def repr_(interp, args, kw):
    v = args[0]
    if isinstance(v, Sym) or contains_sym(v, 4) or (type(v).__module__ != 'builtins' and
                                                   not isinstance(v, enum.Enum)) or has_repo(v):
        return mk_str([OP('repr')])
    return interp.native(repr, [v])


def abs_(interp, args, kw):
    v = args[0]
    if isinstance(v, SAtom):
        v = interp.force_atom(v)
    if isinstance(v, SInt):
        return mk_int(z3.If(v.t < 0, -v.t, v.t))
    if isinstance(v, SReal):
        return SReal(z3.If(v.t < 0, -v.t, v.t))
    return interp.native(abs, args)


def reversed_(interp, args, kw):
    v = args[0]
    it = interp.iterate(v)
    if it is None:
        s = interp.as_seq(v)
        return SSeq(s.n, lambda i: s.at(s.n - 1 - i), list, 'reversed')
    return iter(list(it)[::-1])


def iter_(interp, args, kw):
    it = interp.iterate(args[0])
    if it is None:
        return args[0]
    return it


def next_(interp, args, kw):
    it = args[0]
    if isinstance(it, GenVal):
        if is_symbolic_iter(interp, it.first):
            from . import loops
            return loops.next_gen(interp, it, args[1:])
        it = interp.iterate(it)
    try:
        return next(it)
    except StopIteration as e:
        if len(args) > 1:
            return args[1]
        raise mark(e)


def ord_(interp, args, kw):
    if isinstance(args[0], SStr):
        from . import texts
        return texts.ord_(interp, args[0])
    return interp.native(ord, args)


def callable_(interp, args, kw):
    v = args[0]
    if isinstance(v, (FuncVal, BoundMethod, ModelFn, SymMethod)):
        return True
    if isinstance(v, Sym):
        return False
    return callable(v)


def str_(interp, args, kw):
    if not args:
        return ''
    if len(args) > 1 or kw:
        if rope(args[0]) or isinstance(args[0], (bytes, bytearray)):
            from . import ropes
            return ropes.bytes_method(interp, args[0], 'decode', args[1:], kw)
        return interp.native(str, args, kw)
    return to_str(interp, args[0])


def bytes_(interp, args, kw):
    from . import ropes
    return ropes.bytes_ctor(interp, bytes, args, kw)


def bytearray_(interp, args, kw):
    from . import ropes
    return ropes.bytes_ctor(interp, bytearray, args, kw)


def install(interp):
    M = interp.model
    M(len, ModelFn(len_))
    M(isinstance, ModelFn(lambda i, a, k: isinstance_(i, a[0], a[1])))
    M(issubclass, ModelFn(lambda i, a, k: i.native(issubclass, a)))
    M(type, ModelFn(lambda i, a, k: type_(i, a[0]) if len(a) == 1 else i.native(type, a)))
    M(set, ModelFn(set_))
    M(frozenset, ModelFn(lambda i, a, k: set_(i, a, k, frozenset)))
    M(list, ModelFn(list_))
    M(tuple, ModelFn(tuple_))
    M(dict, ModelFn(dict_))
    M(int, ModelFn(int_))
    M(float, ModelFn(float_))
    M(str, ModelFn(str_))
    M(bool, ModelFn(bool_))
    M(range, ModelFn(range_))
    M(enumerate, ModelFn(enumerate_))
    M(zip, ModelFn(zip_))
    M(min, ModelFn(minmax('min')))
    M(max, ModelFn(minmax('max')))
    M(sorted, ModelFn(sorted_))
    M(any, ModelFn(any_all('any')))
    M(all, ModelFn(any_all('all')))
    M(sum, ModelFn(sum_))
    M(filter, ModelFn(filter_))
    M(map, ModelFn(map_))
    M(getattr, ModelFn(getattr_))
    M(hasattr, ModelFn(hasattr_))
    M(setattr, ModelFn(setattr_))
    M(repr, ModelFn(repr_))
    M(abs, ModelFn(abs_))
    M(reversed, ModelFn(reversed_))
    M(iter, ModelFn(iter_))
    M(next, ModelFn(next_))
    M(ord, ModelFn(ord_))
    M(callable, ModelFn(callable_))
    M(bytes, ModelFn(bytes_))
    M(bytearray, ModelFn(bytearray_))
    M(print, ModelFn(lambda i, a, k: None))
    M(format, ModelFn(lambda i, a, k: format_value(i, a[0], a[1] if len(a) > 1 else '')))
    M(id, ModelFn(lambda i, a, k: id(a[0])))
    for n, opc in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('and_', ast.BitAnd), ('or_', ast.BitOr),
                   ('mod', ast.Mod)):
        M(getattr(operator, n), ModelFn(lambda i, a, k, o=opc: i.binop(o, a[0], a[1])))
    M(operator.eq, ModelFn(lambda i, a, k: i.eq(a[0], a[1])))
    M(operator.ne, ModelFn(lambda i, a, k: i.compare(ast.NotEq(), a[0], a[1])))
    for n in ('lt', 'le', 'gt', 'ge'):
        M(getattr(operator, n), ModelFn(lambda i, a, k, n=n: i.order(n, a[0], a[1])))
    M(operator.contains, ModelFn(lambda i, a, k: i.contains(a[0], a[1])))
    M(operator.not_, ModelFn(lambda i, a, k: i.neg(a[0])))
    M(operator.truth, ModelFn(bool_))
    from . import ropes
    ropes.install(interp)
