"""C07 (and the lexical half of C08): the lexer divides every text into the tokens it contains.

The text is an unknown sequence of code points of unknown length.  The specification is a set of recursive functions
over positions (where whitespace, words, strings and numbers end) and the token at a position given by them.  The
unit for next() starts from an arbitrary state between two tokens and shows that the token, the error and the state
afterwards are those of the specification; the unit for tokenize() shows by induction that the token list is the
chain of tokens from the start of the text to its end.

The loops of the scanner are cut with invariants found by a Houdini-style search among candidates (positions move in
step, strings are slices of the text, the specification functions do not change along the loop) and then discharged
as obligations.
"""
import ast as pyast
import enum
from .common import *
from engine import texts
from engine.interp import ReturnSig, BreakSig, ContinueSig
from hgpl import lexing as LX, errors as E

TT = LX.TokenType
NS = {'user': TT.USR_ATT, 'object': TT.OBJ_ATT, 'env': TT.ENV_ATT, 'admin': TT.ADM_ATT, 'connect': TT.CON_ATT}
WORDS = {'in': TT.OP, 'subset': TT.OP, 'and': TT.BOOL_OP, 'or': TT.BOOL_OP, 'true': TT.BOOL, 'false': TT.BOOL,
         'undef': TT.BOOL, 'not': TT.NOT_OP, 'null': TT.NULL}
CHARS = {'{': TT.LSET, '}': TT.RSET, ',': TT.COMMA, '(': TT.LPARN, ')': TT.RPARN}

SAMPLES = ['', ' ', 'user.age >= 5', ' {1,2 , "a b"}subset\tOBJECT.x_1', 'NOT(TRUE and null<-3.50)', 'env.t!=1 or connect.ip<2  ',
           'admin.a in {}', '"x"="y"', '12', 'undef', '>', '<=', 'a1.b', '1.', '"abc', '!', '-', '\xe9', 'user.', 'foo']
# ends of the tokens of each sample, written down by hand (None: an error follows)
ENDS = [[], [], [8, 11, 13], [2, 3, 4, 5, 7, 13, 14, 20, 31], [3, 4, 8, 12, 17, 18, 23, 24], [5, 7, 8, 11, 22, 23, 24],
        [7, 10, 12, 13], [3, 4, 7], [2], [5], [1], [2]]


def state_of(lx):
    return dict(lx.__dict__)


class Shape:
    """How the fields of a Lexer represent the state between two tokens; found by running the real class."""

    def __init__(self):
        self.why = None
        try:
            self.find()
        except Exception as e:
            self.why = 'state of the lexer not recognised: %s: %s' % (type(e).__name__, e)

    def find(self):
        obs = []
        for text, ends in zip(SAMPLES, ENDS):
            lx = LX.Lexer(text)
            obs.append((text, 0, state_of(lx), [], []))
            for e in ends:
                lx.next()
                obs.append((text, e, {k: (list(v) if isinstance(v, list) else v) for k, v in state_of(lx).items()},
                            lx.toke_list(), lx.att_list()))
        names = set(obs[0][2])
        if any(set(o[2]) != names for o in obs):
            raise ValueError('fields vary')

        def ws(t, e):
            while e < len(t) and t[e].isspace():
                e += 1
            return e
        self.fields = {}
        for k in sorted(names):
            kinds = []
            vals = [(t, e, st[k]) for t, e, st, _, _ in obs]
            if all(isinstance(v, str) and v == t for t, e, v in vals):
                kinds = ['text']
            elif all(type(v) is int and v == len(t) for t, e, v in vals):
                kinds = ['len']
            elif all(type(v) is int and v == e for t, e, v in vals):
                kinds = ['pos']
            elif all(type(v) is int and v == ws(t, e) for t, e, v in vals):
                kinds = ['wspos']
            elif all(v == (t[e] if e < len(t) else None) for t, e, v in vals):
                kinds = ['char', None]
            elif all(v == (t[e] if e < len(t) else '') for t, e, v in vals):
                kinds = ['char', '']
            elif all(isinstance(v, list) for t, e, v in vals):
                if all(st[k] == tl for _, e, st, tl, _ in obs if tl):
                    kinds = ['tokens']
                elif all(st[k] == al for _, e, st, tl, al in obs if tl):
                    kinds = ['atts']
            elif all(isinstance(v, (bool, type(None), enum.Enum)) and v is vals[0][2] for t, e, v in vals):
                kinds = ['const', vals[0][2]]
            if not kinds:
                raise ValueError('field %s' % k)
            self.fields[k] = kinds
        have = [v[0] for v in self.fields.values()]
        if 'text' not in have or 'tokens' not in have or not ('pos' in have or 'wspos' in have):
            raise ValueError('no text, tokens or position')


_shape = []


def shape():
    if not _shape:
        _shape.append(Shape())
    return _shape[0]


class World:
    def __init__(self, h):
        self.h = h
        self.ctx = h.ctx
        self.text = SText('text')
        self.n, self.ch = self.text.n, self.text.ch
        h.ctx.assume(self.n >= 0)
        self.WHOLE = SStr((SL(self.text, z3.IntVal(0), self.n),))
        f = lambda name, s=I: z3.Function('spec.' + name, I, s)
        self.ws, self.ide, self.se = f('ws'), f('word'), f('string')
        self.num = {q: (f('num.%s.ok' % q, B), f('num.%s.end' % q), f('num.%s.float' % q, B)) for q in ('int', 'frac')}
        self.lxobj = None
        self.defs = set()

    # ------------------------------------------------------------ specification
    def at(self, i):
        return self.ch(z3.simplify(i))

    def here(self, i, cls):
        return z3.And(i < self.n, cls(self.at(i)))

    def idchar(self, c):
        return z3.Or(texts.is_alpha(c), texts.is_digit(c), c == 95)

    def strchar(self, c):
        return texts.rng(c, (32, 33), (35, 126))

    def run_def(self, f, cls, i):
        """f(i) is the first position from i on that is the end of the text or not in the class."""
        j = z3.simplify(i + 1)
        return z3.And(f(i) == z3.If(self.here(i, cls), f(j), i))

    def run_lemma(self, f, cls, i):
        return z3.Implies(i <= self.n, z3.And(i <= f(i), f(i) <= self.n, z3.Not(self.here(f(i), cls))))

    def num_def(self, q, i):
        j = z3.simplify(i + 1)
        ok, end, fl = self.num[q]
        digit, dot = self.here(i, texts.is_digit), self.here(i, lambda c: c == 46)

        def same(q2):
            return z3.And([a(i) == b(j) for a, b in zip(self.num[q], self.num[q2])])
        stop = z3.And(ok(i), end(i) == i, fl(i) == z3.BoolVal(q == 'frac'))
        more = z3.If(self.here(j, texts.is_digit), same('frac'), z3.Not(ok(i))) if q == 'int' else z3.Not(ok(i))
        return z3.If(digit, same(q), z3.If(dot, more, stop))

    def num_lemma(self, q, i):
        ok, end, fl = self.num[q]
        return z3.Implies(z3.And(i <= self.n, ok(i)), z3.And(i <= end(i), end(i) <= self.n))

    RUNS = ('ws', 'ide', 'se')

    def cls(self, name):
        return {'ws': texts.is_space, 'ide': self.idchar, 'se': self.strchar}[name]

    def define(self, i):
        """Unfold every specification function at i (and the consequences of their definition)."""
        i = z3.simplify(i)
        fs = []
        for name in self.RUNS:
            f = getattr(self, name)
            fs += [self.run_def(f, self.cls(name), i), self.run_lemma(f, self.cls(name), i)]
        for q in self.num:
            fs += [self.num_def(q, i), self.num_lemma(q, i)]
        self.ctx.assume(z3.And(fs))

    # ------------------------------------------------------------ program state
    def token(self, name, end=False):
        h = self.h
        t = object.__new__(LX.Token)
        ty = h.enum(LX.TokenType, name, [x for x in TT if x is not TT.END and x is not TT.START])
        t.__dict__.update(LX.Token(TT.NULL, 0, None).__dict__)
        t.type, t.pos, t.value = ty, h.int(name + '.pos', 0), Poison('value of an earlier token')
        return t

    def lexer(self, p, first):
        """A lexer between two tokens at position p."""
        h, c = self.h, self.ctx
        sh = shape()
        if first:
            lx = h.interp.call(LX.Lexer, [self.WHOLE])
            tok = [k for k, v in sh.fields.items() if v[0] == 'tokens'][0]
            self.tokens = lx.__dict__[tok]
        else:
            lx = object.__new__(LX.Lexer)
            k = h.int('earlier', 0)
            seq = SSeq(k.t, lambda i: Poison('earlier token'))
            start = object.__new__(LX.Token)
            start.__dict__.update(LX.Token(TT.START, 0).__dict__)
            self.tokens = [start, Seg(seq), self.token('last')]
        self.atts = [Seg(SSeq(h.int('attributes', 0).t, lambda i: Poison('earlier token')))] if not first else None
        for k, v in sh.fields.items():
            if first and k in lx.__dict__ and v[0] in ('tokens', 'atts'):
                if v[0] == 'atts':
                    self.atts = lx.__dict__[k]
                continue
            if not first:
                lx.__dict__[k] = self.field(v, p)
        if self.atts is None:
            self.atts = []
        self.lxobj = lx
        return lx

    def field(self, v, p):
        c = self.ctx
        kind = v[0]
        if kind == 'text':
            return self.WHOLE
        if kind == 'len':
            return mk_int(self.n)
        if kind == 'pos':
            return mk_int(p)
        if kind == 'wspos':
            return mk_int(self.ws(p))
        if kind == 'char':
            q = z3.simplify(p)
            return mk_str([SL(self.text, q, z3.simplify(q + 1))]) if c.branch(q < self.n) else v[1]
        if kind == 'tokens':
            return self.tokens
        if kind == 'atts':
            return self.atts
        return v[1]

    def state_is(self, lx, e, what):
        """Obligations: the fields are those of the state between tokens at position e."""
        h = self.h
        sh = shape()
        for k, v in sh.fields.items():
            x = lx.__dict__.get(k, Poison('missing'))
            if v[0] in ('pos', 'wspos', 'len'):
                want = e if v[0] == 'pos' else (self.ws(e) if v[0] == 'wspos' else self.n)
                if not isinstance(x, (int, SInt)) or isinstance(x, bool):
                    raise Unsupported('field %s' % k)
                h.check('%s: the position of the lexer is the end of the token' % what, int_term(x) == want)
            elif v[0] == 'char':
                if isinstance(x, SStr):
                    s = texts.single(x)
                    if s is None:
                        raise Unsupported('field %s' % k)
                    h.check('%s: the current character is that at the position' % what,
                            z3.And(s.i == e, s.j == e + 1, e < self.n))
                else:
                    h.check('%s: there is no current character at the end of the text' % what,
                            z3.BoolVal(x == v[1]) if not z3.is_expr(x) else False)
                    h.check('%s: there is no current character only at the end of the text' % what, e >= self.n)
            elif v[0] == 'text':
                h.check('%s: the text is unchanged' % what, x is self.WHOLE)
            elif v[0] == 'const':
                h.check('%s: field %s keeps its value' % (what, k), x is v[1])

    # ------------------------------------------------------------ loops
    def loop_hook(self, interp, node, fr, seq):
        if seq is not None:
            return NOTHANDLED
        return scan(self, interp, node, fr)

    def locations(self, fr):
        out = {}
        f = fr
        for k, v in fr.locals.items():
            out['local', k] = v
        lx = self.lxobj
        if lx is not None:
            for k, v in lx.__dict__.items():
                out['field', k] = v
        return out

    def put(self, fr, loc, v):
        if loc[0] == 'local':
            self.h.interp._set_local(fr, loc[1], v)
        else:
            self.ctx.set_attr(self.lxobj, loc[1], v)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, SInt) and isinstance(b, SInt):
        return z3.simplify(a.t).eq(z3.simplify(b.t))
    if isinstance(a, SStr) and isinstance(b, SStr):
        x, y = texts.single(a), texts.single(b)
        return x is not None and y is not None and x.mode == y.mode and \
            z3.is_true(z3.simplify(z3.And(x.i == y.i, x.j == y.j)))
    if type(a) in (int, bool, str, float) and type(a) is type(b):
        return a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    return False


class Chars(SSeq):
    """The characters text[lo:hi] as a list."""

    def __init__(self, text, lo, hi):
        SSeq.__init__(self, z3.simplify(hi - lo), lambda i: mk_str([SL(text, z3.simplify(lo + i), z3.simplify(lo + i + 1))]))
        self.text, self.lo, self.hi = text, lo, hi

    def joined(self):
        return mk_str([SL(self.text, self.lo, self.hi)])


def chars_span(l):
    """(lo, hi) when the list consists of consecutive characters of the text, () when empty, else None."""
    lo = hi = None
    for x in l:
        if type(x) is Seg and isinstance(x.seq, Chars):
            a, b = x.seq.lo, x.seq.hi
        else:
            p = texts.single(x) if isinstance(x, SStr) else None
            if p is None or p.mode is not None:
                return None
            a, b = p.i, p.j
        if lo is None:
            lo = a
        elif not z3.is_true(z3.simplify(a == hi)):
            return None
        hi = b
    return () if lo is None else (lo, hi)


def snap(v):
    return list(v) if isinstance(v, list) else v


def diff(a, b):
    """Constant difference of two positions, or None."""
    t = lambda x: x if z3.is_expr(x) else int_term(x)
    d = z3.simplify(t(a) - t(b))
    return d.as_long() if z3.is_int_value(d) else None


FINITE = (bool, type(None), enum.Enum)


def scan(w, interp, node, fr):
    h, c = w.h, w.ctx
    entry = {k: snap(v) for k, v in w.locations(fr).items()}

    def iterate():
        """One evaluation of the condition and the body; 'next' or 'exit'."""
        if not interp.truth(interp.ev(node.test, fr)):
            interp.block(node.orelse, fr)
            return 'exit'
        try:
            interp.block(node.body, fr)
        except BreakSig:
            return 'exit'
        except ContinueSig:
            pass
        return 'next'

    def quiet(f):
        """Run f() ignoring how the loop is left."""
        depth = len(interp.stack)
        try:
            return f()
        except (ReturnSig, BreakSig):
            return 'exit'
        except Signal:
            raise
        except BaseException as e:
            if not marked(e):
                raise
            return 'exit'
        finally:
            del interp.stack[depth:]

    memo = w.memo
    where = (id(node), tuple(tuple(lv.prefix[:lv.pos]) for lv in c.levels))

    def analyse():
        # 1. what two iterations do to the state
        runs = []

        def discover():
            states = [dict(entry)]
            for _ in range(2):
                if quiet(iterate) != 'next':
                    break
                states.append({k: snap(v) for k, v in w.locations(fr).items()})
            if len(states) > 1:
                runs.append(states)
        c.explore(discover)
        if not runs:
            return None
        # 2. templates
        changed = set()
        for st in runs:
            for a, b in zip(st, st[1:]):
                for k in b:
                    if k not in a:
                        if k[0] == 'local':
                            continue             # set in the body before use: dead at the head
                        raise Unsupported('new field %s in a loop' % k[1])
                    if k in entry and not same_value(a[k], b[k]):
                        changed.add(k)
        dead = {k for st in runs for b in st[1:] for k in b if k not in entry}
        pos = [k for k in sorted(changed) if isinstance(entry[k], (int, SInt)) and not isinstance(entry[k], bool)]
        if not pos:
            raise Unsupported('loop without a moving position in %s' % fr.name)
        for k in pos:
            for st in runs:
                for a, b in zip(st, st[1:]):
                    if not isinstance(b[k], (int, SInt)) or diff(b[k], a[k]) != 1:
                        raise Unsupported('position %s does not advance by one' % k[1])
        p0 = z3.simplify(int_term(entry[pos[0]]))
        tmpl = {}

        def dead_or_fail(k):
            """A local without a template may be dead at the head of the loop: reading it is then an engine limit."""
            if k[0] != 'local':
                raise Unsupported('field %s in a loop of %s' % (k[1], fr.name))
            tmpl[k] = ('dead',)
        for k in sorted(changed):
            if k in pos:
                tmpl[k] = ('pos', diff(entry[k], p0))
                if tmpl[k][1] is None:
                    tmpl[k] = ('pos', z3.simplify(int_term(entry[k]) - p0))
                continue
            vals = [(i, st[i][k]) for st in runs for i in range(len(st))]
            if all(isinstance(v, FINITE) for i, v in vals):
                dom = []
                for i, v in vals:
                    if not any(v is x for x in dom):
                        dom.append(v)
                tmpl[k] = ('finite', dom)
                continue
            if all(isinstance(v, list) for i, v in vals) and k[0] == 'local':
                sp = [(i, chars_span(v)) for i, v in vals]
                known = [(i, x) for i, x in sp if x]
                if all(x is not None for i, x in sp) and known and \
                        len({(str(z3.simplify(x[0])), str(z3.simplify(x[1] - p0 - i))) for i, x in known}) == 1 and \
                        all(i == 0 for i, x in sp if x == ()):
                    i, x = known[-1]
                    tmpl[k] = ('chars', x[0], z3.simplify(x[1] - p0 - i))
                    continue
            sl = [(i, texts.single(v)) for i, v in vals if isinstance(v, SStr)]
            other = [(i, v) for i, v in vals if not isinstance(v, SStr)]
            if not sl or any(s is None or s.mode is not None for i, s in sl) or any(not (v is None or v == '') for i, v in other):
                dead_or_fail(k)
                continue
            moving = {(str(z3.simplify(s.i - p0 - i)), str(z3.simplify(s.j - p0 - i))) for i, s in sl}
            fixed = {(str(z3.simplify(s.i)), str(z3.simplify(s.j - p0 - i))) for i, s in sl}
            i, s = sl[-1]
            if len(moving) == 1 and all(z3.is_int_value(z3.simplify(x)) for x in (s.i - p0 - i, s.j - s.i)):
                off = z3.simplify(s.i - p0 - i).as_long()
                none = other[0][1] if other else None
                if z3.simplify(s.j - s.i).as_long() != 1 or len({repr(v) for _, v in other}) > 1:
                    dead_or_fail(k)
                    continue
                if len(fixed) > 1:
                    tmpl[k] = ('char', off, none)
                    continue
            if len(fixed) == 1 and all(i == 0 and v == '' for i, v in other):
                tmpl[k] = ('accum', s.i, z3.simplify(s.j - p0 - i))
                continue
            dead_or_fail(k)
            continue
        return p0, tmpl, dead
    if where in memo:
        found = memo[where][0]
        if found is not None:
            pname, rel, dead = found
            p0 = z3.simplify(int_term(entry[pname]))
            tmpl = {k: ((t[0], z3.simplify(t[1] + p0), t[2]) if t[0] in ('accum', 'chars') else t) for k, t in rel.items()}
    else:
        found = analyse()
        if found is None:
            memo[where] = (None, None)
        else:
            p0, tmpl, dead = found
            pname = [k for k in sorted(tmpl) if tmpl[k][0] == 'pos'][0]
            rel = {k: ((t[0], z3.simplify(t[1] - p0), t[2]) if t[0] in ('accum', 'chars') else t) for k, t in tmpl.items()}
            if all(t[0] not in ('accum', 'chars') or z3.is_int_value(t[1]) for t in rel.values()):
                memo[where] = ((pname, rel, dead), None)
    if found is None:                    # no second iteration from here: plain execution
        if iterate() == 'exit':
            return None
        raise Unsupported('loop in %s' % fr.name)
    finite = [k for k in sorted(tmpl) if tmpl[k][0] == 'finite']
    # 3. candidate invariants
    offs = (-1, 0, 1, 2)

    def key(vals):
        return tuple(repr(v) for v in vals)

    def candidates():
        out = {}
        for d in (0, 1):
            out['position at most %d after the end' % d] = lambda P, d=d: P <= w.n + d
        out['position inside the text'] = lambda P: P < w.n
        for d in (0, 1):
            for name in w.RUNS:
                f = getattr(w, name)
                out['%s unchanged at +%d' % (name, d)] = lambda P, f=f, d=d: f(z3.simplify(P + d)) == f(z3.simplify(p0 + d))
            for q1 in w.num:
                for q2 in w.num:
                    out['number %s as %s at +%d' % (q1, q2, d)] = lambda P, q1=q1, q2=q2, d=d: z3.And(
                        [a(z3.simplify(p0 + d)) == b(z3.simplify(P + d)) for a, b in zip(w.num[q1], w.num[q2])])
        for k in sorted(tmpl):
            if tmpl[k][0] in ('accum', 'chars'):
                out['%s not empty' % k[1]] = lambda P, t=tmpl[k]: P + t[2] > t[1]
                out['%s well-formed' % k[1]] = lambda P, t=tmpl[k]: P + t[2] >= t[1]
        return out
    cands = candidates()

    def define(P):
        for d in offs[1:]:
            w.define(P + d)

    start = [entry[k] for k in finite]

    def head(sets, vals=None):
        """Put the program in a generic state at the head of the loop."""
        P = z3.Int(c.name('at'))
        c.assume(P >= p0)
        if vals is None:
            opts = [v for v in combos() if key(v) in sets]
            vals = c.choose(opts, 'loop')
        define(P)
        define(p0)
        c.assume(z3.And([cands[x](P) for x in sorted(sets[key(vals)])] or [z3.BoolVal(True)]))
        for k in sorted(tmpl):
            t = tmpl[k]
            if t[0] == 'pos':
                v = mk_int(P + t[1])
            elif t[0] == 'finite':
                v = vals[finite.index(k)]
            elif t[0] == 'accum':
                lo, hi = t[1], z3.simplify(P + t[2])
                v = mk_str([SL(w.text, lo, hi)])
            elif t[0] == 'chars':
                c.touch(fr.locals[k[1]])
                fr.locals[k[1]][:] = [Seg(Chars(w.text, t[1], z3.simplify(P + t[2])))]
                continue
            elif t[0] == 'dead':
                v = Poison('loop')
            else:
                i = z3.simplify(P + t[1])
                v = mk_str([SL(w.text, i, z3.simplify(i + 1))]) if c.branch(i < w.n) else t[2]
            w.put(fr, k, v)
        for k in dead:
            if k[1] in fr.locals:
                w.put(fr, k, Poison('loop'))
        return P, vals

    def combos():
        import itertools
        return [list(x) for x in itertools.product(*[tmpl[k][1] for k in finite])]

    def after(P, check, cover):
        """The state after one iteration must again be a state at the head (at P+1)."""
        now = w.locations(fr)
        vals = []
        for k in finite:
            v = now[k]
            if not any(v is x for x in tmpl[k][1]):
                raise Unsupported('value of %s in a loop' % k[1])
            vals.append(v)
        P1 = z3.simplify(P + 1)
        define(P1)
        for k in sorted(tmpl):
            t, v = tmpl[k], now[k]
            if t[0] == 'pos':
                if not isinstance(v, (int, SInt)):
                    raise Unsupported('position %s' % k[1])
                check('loop: %s advances by one' % k[1], int_term(v) == P1 + t[1])
            elif t[0] == 'dead':
                continue
            elif t[0] == 'chars':
                x = chars_span(v) if isinstance(v, list) else None
                if x is None:
                    raise Unsupported('variable %s' % k[1])
                hi = z3.simplify(P1 + t[2])
                check('loop: %s has the characters read so far' % k[1], z3.And(x[0] == t[1], x[1] == hi) if x else t[1] == hi)
            elif t[0] in ('accum', 'char'):
                lo = t[1] if t[0] == 'accum' else z3.simplify(P1 + t[1])
                hi = z3.simplify(P1 + t[2]) if t[0] == 'accum' else z3.simplify(lo + 1)
                if isinstance(v, SStr):
                    s = texts.single(v)
                    if s is None or s.mode is not None:
                        raise Unsupported('variable %s' % k[1])
                    check('loop: %s is the text read so far' % k[1] if t[0] == 'accum' else 'loop: %s is the character at the position' % k[1],
                          z3.And(s.i == lo, s.j == hi) if t[0] == 'accum' else z3.And(s.i == lo, s.j == hi, lo < w.n))
                elif v == '' and t[0] == 'accum':
                    check('loop: %s is the text read so far' % k[1], lo == hi)
                elif t[0] == 'char' and (v is t[2] or v == t[2]):
                    check('loop: %s is missing only at the end of the text' % k[1], lo >= w.n)
                else:
                    raise Unsupported('variable %s' % k[1])
        for k in now:
            if k not in tmpl and k not in dead and k in entry and not same_value(entry[k], now[k]):
                raise Unsupported('%s changes in a loop' % k[1])
        cover(vals, P1)

    # entry
    known = memo.get(where, (None, None))[1]
    sets = {key(v): set(cands) for v in combos()}
    define(p0)
    if known is None:
        sets[key(start)] = {x for x in cands if c._check(z3.Not(cands[x](p0))) == z3.unsat}
    reached = {key(start)}
    if known is not None:
        sets, reached = {k: set(v) for k, v in known.items()}, set(known)
    while known is None:
        # decided after the exploration: the paths of one exploration must see the same assumptions
        drop, grow = set(), set()

        def go():
            vals = c.choose([v for v in combos() if key(v) in reached], 'loop')
            P, _ = head(sets, vals)
            if quiet(iterate) != 'next':
                return

            def cover(vals2, P1):
                k2 = key(vals2)
                if k2 not in reached:
                    grow.add(k2)
                for x in sorted(sets[k2]):
                    if (k2, x) not in drop and c._check(z3.Not(cands[x](P1))) != z3.unsat:
                        drop.add((k2, x))
            after(P, lambda name, f: None, cover)
        c.explore(go)
        for k2, x in drop:
            sets[k2].discard(x)
        reached |= grow
        if not drop and not grow:
            break
    sets = {k: v for k, v in sets.items() if k in reached}
    if where in memo:
        memo[where] = (memo[where][0], sets)
    # 4. obligations
    for x in sorted(sets[key(start)]):
        h.check('loop in %s, entry: %s' % (fr.name, x), cands[x](p0))
    for k in sorted(tmpl):
        t = tmpl[k]
        if t[0] == 'accum' and not isinstance(entry[k], SStr):
            h.check('loop in %s, entry: %s is empty' % (fr.name, k[1]), z3.simplify(p0 + t[2]) == t[1])
        elif t[0] == 'accum':
            s = texts.single(entry[k])
            h.check('loop in %s, entry: %s' % (fr.name, k[1]), z3.And(s.i == t[1], s.j == p0 + t[2]))
        elif t[0] == 'chars':
            x = chars_span(entry[k])
            hi = z3.simplify(p0 + t[2])
            h.check('loop in %s, entry: %s' % (fr.name, k[1]), z3.And(x[0] == t[1], x[1] == hi) if x else t[1] == hi)
        elif t[0] == 'char':
            i = z3.simplify(p0 + t[1])
            if isinstance(entry[k], SStr):
                s = texts.single(entry[k])
                h.check('loop in %s, entry: %s' % (fr.name, k[1]), z3.And(s.i == i, s.j == i + 1, i < w.n))
            else:
                h.check('loop in %s, entry: %s' % (fr.name, k[1]), i >= w.n)
    P, vals = head(sets)
    h.check('loop in %s: the position stays bounded by the text' % fr.name, P <= w.n + 1)
    if iterate() == 'exit':
        return None

    def cover(vals2, P1):
        for x in sorted(sets[key(vals2)]):
            h.check('loop in %s: %s' % (fr.name, x), cands[x](P1))
    after(P, lambda name, f: h.check(name, f), cover)
    raise PathKill()


# ---------------------------------------------------------------------------------------------- the token at a place
def spec_cases(w, q):
    """The token at position q (no whitespace there): list of (condition, kind or None, value, end).

    value: None, a literal, ('slice', i, j), ('int', i, j) or ('float', i, j)."""
    n, at, here = w.n, w.at, w.here
    is_ = lambda i, x: z3.And(i < n, at(i) == ord(x))
    inside = q < n
    cases = [(q >= n, TT.END, None, q)]
    for x, t in CHARS.items():
        cases.append((is_(q, x), t, None, q + 1))
    cases.append((is_(q, '='), TT.OP, '=', q + 1))
    for x in '<>':
        cases.append((z3.And(is_(q, x), is_(q + 1, '=')), TT.OP, x + '=', q + 2))
        cases.append((z3.And(is_(q, x), z3.Not(is_(q + 1, '='))), TT.OP, x, q + 1))
    cases.append((z3.And(is_(q, '!'), is_(q + 1, '=')), TT.OP, '!=', q + 2))
    # strings
    e = w.se(z3.simplify(q + 1))
    cases.append((z3.And(is_(q, '"'), e < n, at(e) == 34), TT.STRING, ('slice', q + 1, e), e + 1))
    # numbers
    number = z3.Or(here(q, texts.is_digit), z3.And(is_(q, '-'), here(q + 1, texts.is_digit)))
    ok, end, fl = [f(z3.simplify(q + 1)) for f in w.num['int']]
    iok, ival = texts.number_terms(w.h.interp, w.text, q, end, int)
    fok, fval = texts.number_terms(w.h.interp, w.text, q, end, float)
    cases.append((z3.And(number, ok, z3.Not(fl), iok), TT.INT, ('int', ival), end))
    cases.append((z3.And(number, ok, fl, fok), TT.FLOAT, ('float', fval), end))
    # words
    e = w.ide(z3.simplify(q + 1))
    word = here(q, texts.is_alpha)
    e2 = w.ide(z3.simplify(e + 2))
    piece = SL(w.text, q, e, 'lower')

    def spelled(lit):
        return texts.spells(w.h.interp, [piece], lit)
    for lit, t in NS.items():
        cases.append((z3.And(word, is_(e, '.'), here(e + 1, w.idchar), spelled(lit)), t, ('slice', e + 1, e2), e2))
    for lit, t in WORDS.items():
        cases.append((z3.And(word, z3.Not(is_(e, '.')), spelled(lit)), t, lit.upper(), e))
    return cases


def value_is(w, v, want):
    """Formula: the program value v is the specified one."""
    h = w.h
    if want is None:
        return z3.BoolVal(v is None)
    if isinstance(want, str):
        if isinstance(v, str):
            return z3.BoolVal(v == want)
        return texts.spells(h.interp, str_pieces(v), want) if isinstance(v, SStr) else z3.BoolVal(False)
    if want[0] == 'slice':
        if isinstance(v, str) and v == '':
            return want[1] == want[2]
        if isinstance(v, str):
            return texts.spells(h.interp, [SL(w.text, want[1], want[2])], v)
        s = texts.single(v) if isinstance(v, SStr) else None
        if s is None:
            if isinstance(v, SStr):
                raise Unsupported('value of a token')
            return z3.BoolVal(False)
        if s.mode is not None:
            # a case-mapped slice equals the slice only when every character is its own image: checked as an obligation
            k = z3.Int(h.ctx.name('k'))
            c = w.ch(k)
            last = s.mode.split('+')[-1]
            own = z3.Not(texts.rng(c, (65, 90)) if last != 'upper' else texts.rng(c, (97, 122)))
            return z3.And(s.i == want[1], s.j == want[2], z3.ForAll([k], z3.Implies(z3.And(s.i <= k, k < s.j), z3.And(own, c < 128))))
        return z3.Or(z3.And(s.i == want[1], s.j == want[2]), z3.And(s.i == s.j, want[1] == want[2]))
    if want[0] == 'int':
        return int_term(v) == want[1] if isinstance(v, (int, SInt)) and not isinstance(v, bool) else z3.BoolVal(False)
    return real_term(v) == want[1] if isinstance(v, (float, SReal)) else z3.BoolVal(False)


ATT = set(NS.values())


def regions(w, q):
    """Exhaustive cases for what stands at position q, one unit each."""
    c = w.at(q)
    word = texts.is_alpha(c)
    number = z3.Or(texts.is_digit(c), c == 45)
    rs = dict(end=q >= w.n, string=z3.And(q < w.n, c == 34), number=z3.And(q < w.n, number),
              word=z3.And(q < w.n, word))
    rs['other'] = z3.And(q < w.n, z3.Not(z3.Or(word, number, c == 34)))
    return rs


REGIONS = ('word', 'number', 'string', 'other', 'end')


def next_unit(h, want, first, memo, region):
    w = World(h)
    w.memo = memo
    c = h.ctx
    p = z3.IntVal(0) if first else z3.Int(c.name('p'))
    c.assume(z3.And(p >= 0, p <= w.n))
    for d in (0, 1, 2):
        w.define(p + d)
    c.assume(regions(w, w.ws(p))[region])
    lx = w.lexer(p, first)
    old, olda = list(w.tokens), list(w.atts)
    if first and want == 'C07':
        h.check('the token list begins with the start marker',
                len(old) == 1 and type(old[0]) is LX.Token and old[0].__dict__.get('type') is TT.START and old[0].__dict__.get('value') is None)
        h.check('the start marker is at position 0', old[0].__dict__.get('pos') == 0)
        h.check('no attributes at the start', len(olda) == 0)
        w.state_is(lx, z3.IntVal(0), 'new lexer')
        h.check('policy() is the text', h.method(lx, 'policy').value is w.WHOLE)
    h.interp.loop_hook = w.loop_hook
    o = h.method(lx, 'next')
    h.interp.loop_hook = None
    h.cover('next %s' % o.kind)
    q = w.ws(p)
    for d in (0, 1, 2):
        w.define(q + d)
    cases = spec_cases(w, q)
    e = w.ide(z3.simplify(q + 1))
    w.define(e + 2)
    if o.raised:
        x = o.value
        if want == 'C07':
            h.check('every token of the text is recognised', z3.Not(z3.Or([x[0] for x in cases])), 'raised %s: %s' % (type(x).__name__, x.args[:1]))
        else:
            h.check('malformed text fails with a lexical error', isinstance(x, E.LexerError), '%s: %s' % (type(x).__name__, x.args[:1]))
            t = x.__dict__.get('policy_text')
            h.check('the error carries the text', t is w.WHOLE or isinstance(t, SStr) and same_value(t, w.WHOLE))
            pos = x.__dict__.get('pos')
            if not isinstance(pos, (int, SInt)):
                h.check('the error has a position', False)
            h.check('the position of the error lies in the text', z3.And(int_term(pos) >= 0, int_term(pos) <= w.n))
        return
    t = o.value
    if want == 'C08':
        h.check('next returns a token', isinstance(t, LX.Token) and type(t) is LX.Token)
        return
    if not isinstance(t, LX.Token):
        h.check('next returns a token', False, repr(t))
    ty, pos, val = [h.get(t, k) for k in ('type', 'pos', 'value')]
    if not isinstance(ty, TT):
        raise Unsupported('kind of a token')
    mine = [x for x in cases if x[1] is ty]
    h.check('a token of this kind stands here (%s)' % ty.name, z3.Or([x[0] for x in mine]) if mine else False)
    if not isinstance(pos, (int, SInt)):
        h.check('the position of a token is a number', False)
    h.check('the token is positioned at its first character', int_term(pos) == q)
    h.check('the token carries its value', z3.And([z3.Implies(x[0], value_is(w, val, x[2])) for x in mine]))
    after = h.method(lx, 'toke_list')
    now = after.value
    if after.raised or not isinstance(now, list):
        raise Unsupported('token list')
    h.check('exactly one token is added to the list, at its end', len(now) == len(old) + 1 and
            all(a is b for a, b in zip(now, old)) and now[-1] is t)
    aft = h.method(lx, 'att_list').value
    if not isinstance(aft, list):
        raise Unsupported('attribute list')
    if ty in ATT:
        h.check('an attribute token is added to the attribute list, at its end', len(aft) == len(olda) + 1 and
                all(a is b for a, b in zip(aft, olda)) and aft[-1] is t)
    else:
        h.check('only attribute tokens are added to the attribute list', len(aft) == len(olda) and all(a is b for a, b in zip(aft, olda)))
    cur = h.method(lx, 'current')
    h.check('current() is the latest token', cur.value is t)
    if ty is not TT.END:
        m = z3.Int(c.name('end'))
        c.assume(z3.And([z3.Implies(x[0], m == x[3]) for x in mine]))
        h.check('the token ends inside the text', z3.And(m > q, m <= w.n))
        w.define(m)
        w.state_is(lx, m, ty.name)
        return
    # the end marker has been given: nothing more happens
    st = {k: snap(v) for k, v in lx.__dict__.items()}
    h.interp.loop_hook = w.loop_hook
    o2 = h.method(lx, 'next')
    h.interp.loop_hook = None
    h.check('nothing follows the end marker', o2.kind == 'return' and o2.value is None, repr(o2))
    if not all(same_value(st[k], snap(lx.__dict__[k])) for k in st):
        h.check('the token list stays as it is after the end marker',
                all(same_value(snap(lx.__dict__[k]), st[k]) for k, v in shape().fields.items() if v[0] in ('tokens', 'atts')))
        raise Unsupported('state after the end marker')


def tokenize_unit(h, want):
    """tokenize() from a new lexer, with next() replaced by its contract."""
    w = World(h)
    c = h.ctx
    sh = shape()
    pos_of = z3.Function('spec.start', I, I)       # end of token k-1 (where the search for token k begins)
    kind = z3.Function('spec.kind', I, I)
    fails = z3.Function('spec.fails', I, B)
    N = z3.Int('spec.tokens')                      # index of the end marker, or of the failure
    c.assume(z3.And(pos_of(0) == 0, N >= 0))
    k = z3.Int('k!any')
    c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(kind(k) != TT.END.value, z3.Not(fails(k))))))
    c.assume(z3.Or(kind(N) == TT.END.value, fails(N)))
    made = {}

    def token(i):
        i = z3.simplify(i)
        if i.get_id() not in made:
            t = object.__new__(LX.Token)
            t.__dict__.update(LX.Token(TT.NULL, 0, None).__dict__)
            t.type, t.pos, t.value = h.interp.mk_enum(TT, kind(i)), mk_int(w.ws(pos_of(i))), Poison('value')
            t.__dict__['_pyvc_index'] = i
            made[i.get_id()] = (i, t)
        return made[i.get_id()][1]
    lx = h.interp.call(LX.Lexer, [w.WHOLE])
    w.lxobj = lx
    tokf = [x for x, v in sh.fields.items() if v[0] == 'tokens'][0]
    attf = [x for x, v in sh.fields.items() if v[0] == 'atts']
    first = list(lx.__dict__[tokf])
    state = dict(k=z3.IntVal(0))
    seq = SSeq(N + 1, token)
    done = [False]

    def put(kk):
        """The lexer after kk tokens."""
        state['k'] = z3.simplify(kk)
        for x, v in sh.fields.items():
            if v[0] == 'tokens':
                l = first + [Seg(SSeq(state['k'], token))] if not state['k'].eq(z3.IntVal(0)) else list(first)
                c.set_attr(lx, x, l)
            elif v[0] == 'atts':
                c.set_attr(lx, x, [Seg(SSeq(h.int('attributes', 0).t, lambda i: Poison('attribute')))])
            elif v[0] in ('pos', 'wspos'):
                c.set_attr(lx, x, mk_int(pos_of(state['k'])))
            elif v[0] == 'char':
                c.set_attr(lx, x, Poison('character'))

    def hook(interp, f, args, kwargs):
        if f is not LX.Lexer.__dict__.get('next') or not args or args[0] is not lx:
            return NOTHANDLED
        kk = state['k']
        h.check('next() is called in a state between tokens', kk <= N + 1)
        if c.branch(kk == N + 1):
            return None
        if c.branch(fails(kk)):
            raise mark(E.LexerError('lexical', w.WHOLE, h.int('errpos', 0)))
        t = token(kk)
        state['k'] = z3.simplify(kk + 1)
        put(state['k'])
        return t

    def loop(interp, node, fr, s):
        if s is not None:
            return NOTHANDLED
        h.check('tokenize starts from the beginning', state['k'].eq(z3.IntVal(0)))
        stored = {x.id for y in node.body for x in pyast.walk(y) if isinstance(x, pyast.Name) and isinstance(x.ctx, pyast.Store)}
        kk = z3.Int(c.name('k'))
        c.assume(z3.And(0 <= kk, kk <= N + 1))
        if h.choose([True, False], 'tokens so far'):
            c.assume(z3.And(kk >= 1, z3.Not(fails(kk - 1))))
            put(kk)
        else:
            c.assume(kk == 0)
            put(z3.IntVal(0))
            kk = z3.IntVal(0)
        for x in stored:
            if x in fr.locals:
                interp._set_local(fr, x, Poison('loop'))
        if not interp.truth(interp.ev(node.test, fr)):
            interp.block(node.orelse, fr)
            return None
        try:
            interp.block(node.body, fr)
        except BreakSig:
            return None
        except ContinueSig:
            pass
        h.check('tokenize: one token per iteration', z3.And(state['k'] > kk, state['k'] <= N + 1, z3.Not(fails(state['k'] - 1))))
        raise PathKill()
    h.interp.call_hook = hook
    h.interp.loop_hook = loop
    o = h.method(lx, 'tokenize')
    h.interp.call_hook = h.interp.loop_hook = None
    h.cover('tokenize %s' % o.kind)
    if o.raised:
        h.check('tokenize fails only where the text has no token', z3.And(isinstance(o.value, E.LexerError), fails(N), state['k'] == N),
                type(o.value).__name__)
        return
    h.check('tokenize reads all tokens up to the end marker', z3.And(state['k'] == N + 1, kind(N) == TT.END.value))
    l = h.method(lx, 'toke_list').value
    h.check('the token list is the start marker and the tokens in order', isinstance(l, list) and
            all(a is b for a, b in zip(l, first)) and len(l) == len(first) + 1 and type(l[-1]) is Seg)


def lemma_unit(h):
    """The consequences of the recursive definitions used above, by induction from the end of the text."""
    def body():
        w = World(h)
        i = z3.Int('i')
        h.ctx.assume(z3.And(i >= 0, i <= w.n))
        j = z3.simplify(i + 1)
        for name in w.RUNS:
            f, cl = getattr(w, name), w.cls(name)
            h.check('%s: step' % name, z3.Implies(z3.And(w.run_def(f, cl, i), w.run_lemma(f, cl, j)), w.run_lemma(f, cl, i)))
        for q in w.num:
            h.check('number %s: step' % q, z3.Implies(z3.And([w.num_def(q, i)] + [w.num_lemma(x, j) for x in w.num]), w.num_lemma(q, i)))
        h.check('the cases are exhaustive', z3.Or(list(regions(w, i).values())))
        h.cover('lemmas')
    h.run(body)


def not_reached(h, why):
    h.unsupported = why


def install():
    sh = shape()
    for want in ('C07', 'C08'):
        if sh.why:
            add_unit(want, 'lexer', lambda h: not_reached(h, sh.why))
            continue
        for region in REGIONS:
            for first in (True, False):
                def mk(want=want, first=first, region=region):
                    memo = {}
                    return lambda h: h.run(lambda: next_unit(h, want, first, memo, region))
                add_unit(want, 'next from %s: %s' % ('a new lexer' if first else 'any state between tokens', region), mk())
        def mk2(want=want):
            return lambda h: h.run(lambda: tokenize_unit(h, want))
        add_unit(want, 'tokenize', mk2())
    add_unit('C07', 'lemmas about the specification', lemma_unit)


install()
