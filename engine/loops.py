"""Loops over sequences of unknown length.

A loop `for x in seq: body` over a symbolic sequence is cut without a bound: the body is explored once for a generic
index k (0 <= k < n), giving all its outcomes with their path conditions.  Supported shapes (anything else is
Unsupported, never silently approximated):

  * iterations that leave nothing behind (checks), that append one value to one list (a map), or that write
    attributes of the element itself;
  * iterations that may leave the loop (return, break, raise): case split between "no index leaves" (a universally
    quantified fact) and "k0 is the first index that leaves" (the body is then re-executed at k0).

This is sound because the body is checked not to read what earlier iterations wrote (every location written in the
body is Poisoned before the generic iteration unless it is written before being read).
"""
import ast
import re
import z3

from .core import Unsupported, PathKill, Signal, EngineError, ObligationFailure
from .values import *
from .interp import (Seg, NOTHANDLED, Frame, GenVal, ReturnSig, BreakSig, ContinueSig, marked, local_names, has_seg,
                     BoundMethod, FuncVal)

_num = re.compile(r'!(\d+)$')


_numbered = {}


def numbered(f):
    """Names of the numbered constants and functions of a formula."""
    todo = [f]
    while todo:
        e = todo[-1]
        if e.get_id() in _numbered:
            todo.pop()
            continue
        app = z3.is_app(e)
        cs = e.children() if app else [e.body()] if z3.is_quantifier(e) else []
        rest = [c for c in cs if c.get_id() not in _numbered]
        if rest:
            todo.extend(rest)
            continue
        todo.pop()
        out = frozenset().union(*[_numbered[c.get_id()][1] for c in cs]) if cs else frozenset()
        if app:
            n = e.decl().name()
            m = _num.search(n)
            if m:
                out = out | {(n, int(m.group(1)))}
        _numbered[e.get_id()] = (e, out)
    return _numbered[f.get_id()][1]


def fresh_consts(f, start, allowed):
    """Names of constants created after `start` that are not allowed ones."""
    return {n for n, m in numbered(f) if m > start and n not in allowed}


class Outcome:
    def __init__(self, pc, kind, value, writes):
        self.pc, self.kind, self.value, self.writes = pc, kind, value, writes
        self.raw, self.ex = pc, []          # pc is Exists(ex, raw)


WITNESS = {}       # names of constants introduced by loop rules (existential witnesses)


def witness(ctx, base, sort=None):
    c = z3.Const(ctx.name(base), sort if sort is not None else I)
    WITNESS[c.decl().name()] = c
    return c


def generic(interp, run, bound, k, value_of=None):
    """Explore run() for a generic k; run returns (kind, value).  value_of maps value to a z3 term.

    Witnesses introduced by loop rules inside the iteration are existentially quantified in its path condition."""
    ctx = interp.ctx
    start = ctx.fresh
    outs = []

    def go():
        ctx.assume(bound)
        na = len(ctx.assumed)
        mark = ctx.journal.mark()
        stack = len(interp.stack)
        try:
            kind, value = run()
        finally:
            del interp.stack[stack:]
        pc = ctx.assumed[na:]
        f = z3.And(pc) if pc else z3.BoolVal(True)
        log = ctx.journal.log[mark:]
        fresh = {id(o) for kk, o, key, _ in log if kk == 'alloc'}
        writes = [(kk, o, key) for kk, o, key, _ in log if kk not in ('lazy', 'cache', 'alloc') and id(o) not in fresh]
        outs.append(Outcome(f, kind, value_of(value) if value_of and kind == 'value' else value, writes))
    ctx.explore(go)
    allowed = {k.decl().name()} if k is not None else set()
    for o in outs:
        bad = fresh_consts(o.pc, start, allowed)
        ex = sorted(n for n in bad if n in WITNESS)
        if ex:
            o.ex = [WITNESS[n] for n in ex]
            o.pc = z3.Exists(o.ex, o.pc)
            bad -= set(ex)
        if z3.is_expr(o.value):
            bad |= fresh_consts(o.value, start, allowed)
        if bad:
            raise Unsupported('generic iteration introduces %s' % sorted(bad)[:3])
    return outs


def elem_of(interp, v):
    """(bound variable, its range, element) for a generic member of an iterable."""
    ctx = interp.ctx
    if isinstance(v, SAtoms):
        a = z3.Const(ctx.name('x'), Atom)
        isint = z3.Function('atom.isint', Atom, B)
        return a, v.member(a), lambda: SAtom(a, isint(a), v.null or null_value())
    seq = interp.as_seq(v)
    k = z3.Int(ctx.name('k'))
    return k, z3.And(0 <= k, k < seq.n), lambda: seq.at(k)


def null_value():
    import sys
    m = sys.modules.get('hgpl.ast')
    return m.ASTNullVal() if m is not None else None


def quantifier(interp, g, which):
    """any(...) / all(...) over a generator whose first iterable is symbolic."""
    node = g.node
    if getattr(g, 'taken', False):
        raise Unsupported('resuming a symbolic generator')
    if len(node.generators) != 1:
        raise Unsupported('nested symbolic generators')
    gen = node.generators[0]
    if isinstance(g.first, (list, tuple)) and len(g.first) > 1:
        rs = []
        for x in list(g.first):
            part = GenVal(node, g.frame, [x])
            if type(x) is Seg:
                rs.append(quantifier(interp, part, which))
            else:
                one = list(interp.iterate(part))
                rs += [y if isinstance(y, (bool, SBool)) else interp.truth(y) for y in one]
        return interp.any_of(rs) if which == 'any' else interp.all_of(rs)
    k, bound, elem = elem_of(interp, g.first)

    def run():
        fr = Frame(None, g.frame.globals, '<comp>', parent=g.frame, classcell=g.frame.classcell)
        interp.assign(gen.target, elem(), fr)
        for c in gen.ifs:
            if not interp.truth(interp.ev(c, fr)):
                return 'value', which == 'all'
        return 'value', interp.ev(node.elt, fr)
    return _quant(interp, run, bound, k, which)


def quantifier_seq(interp, v, which):
    k, bound, elem = elem_of(interp, v)
    return _quant(interp, lambda: ('value', elem()), bound, k, which)


def member(interp, c, x):
    """x in c: some element is x or equals it."""
    if isinstance(c, (list, tuple)) and len(c) > 1:
        return interp.any_of([member(interp, [e], x) if type(e) is Seg else interp.eq_or_is(e, x) for e in c])
    k, bound, elem = elem_of(interp, c)
    return _quant(interp, lambda: ('value', interp.eq_or_is(elem(), x)), bound, k, 'any')


def seq_eq(interp, a, b):
    """list == list: as long, and equal element by element."""
    x, y = interp.as_seq(a), interp.as_seq(b)
    same = mk_bool(z3.simplify(x.n == y.n))
    if not interp.truth(same):
        return False
    k = z3.Int(interp.ctx.name('k'))
    return _quant(interp, lambda: ('value', interp.eq_or_is(x.at(k), y.at(k))), z3.And(0 <= k, k < x.n), k, 'all')


def _quant(interp, run, bound, k, which):
    def run2():
        kind, v = run()
        if isinstance(v, (bool, SBool)):
            return kind, v
        return kind, interp.truth(v)
    outs = generic(interp, guard(interp, run2), bound, k, value_of=bool_term)
    if any(o.kind != 'value' for o in outs):
        raise Unsupported('exception inside any/all over a symbolic sequence')
    check_pure(outs)
    f = z3.Or([z3.And(o.pc, o.value) for o in outs]) if outs else z3.BoolVal(False)
    if which == 'any':
        return mk_bool(z3.Exists([k], z3.And(bound, f)))
    return mk_bool(z3.ForAll([k], z3.Implies(bound, f)))


def guard(interp, run):
    """Turn program exceptions of run() into an outcome."""
    def f():
        try:
            return run()
        except Signal:
            raise
        except BaseException as e:
            if not marked(e):
                raise EngineError('internal: %s: %s' % (type(e).__name__, e)) from e
            return 'raise', e
    return f


def check_pure(outs):
    for o in outs:
        for kind, obj, key in o.writes:
            if kind == 'local' or kind == 'cell' and not hasattr(obj, 'rope'):
                continue
            raise Unsupported('side effect in a symbolic iteration')


# ------------------------------------------------------------------------------------------------ comprehensions
def comprehension(interp, node, fr, kind):
    first = interp.ev(node.generators[0].iter, fr)
    return _comp(interp, node, fr, first, kind)


def gen_comprehension(interp, g, kind):
    if getattr(g, 'taken', False):
        raise Unsupported('resuming a symbolic generator')
    return _comp(interp, g.node, g.frame, g.first, kind)


def _comp(interp, node, frame, first, kind):
    cfr = Frame(None, frame.globals, '<comp>', parent=frame, classcell=frame.classcell)
    it = interp.iterate(first)
    if it is None:
        return symbolic_comp(interp, node, frame, first, kind)
    out = []

    def rec(i):
        if i == len(node.generators):
            if kind == 'dict':
                out.append((interp.ev(node.key, cfr), interp.ev(node.value, cfr)))
            else:
                out.append(interp.ev(node.elt, cfr))
            return
        g = node.generators[i]
        if i == 0:
            src = it
        else:
            v = interp.ev(g.iter, cfr)
            src = interp.iterate(v)
            if src is None:
                raise Unsupported('nested symbolic comprehension')
        for x in src:
            interp.assign(g.target, x, cfr)
            if all(interp.truth(interp.ev(c, cfr)) for c in g.ifs):
                rec(i + 1)
    rec(0)
    if kind == 'list':
        interp.alloc(out)
    if kind == 'dict':
        d = interp.alloc({})
        for k, v in out:
            interp.store_sub(d, k, v)
        return d
    if kind == 'set':
        return interp.make_set(out)
    return out


def symbolic_comp(interp, node, frame, first, kind):
    if len(node.generators) != 1:
        raise Unsupported('symbolic comprehension')
    g = node.generators[0]
    ctx = interp.ctx
    focus = getattr(interp, 'focus', None)
    if kind == 'dict' or (kind == 'list' and focus is not None and not isinstance(first, SAtoms) and
                          interp.as_seq(first).n.eq(focus[1])):
        # the loop that stores each item
        fr = Frame(None, frame.globals, '<comp>', parent=frame, classcell=frame.classcell)
        loop = getattr(node, 'as_loop', None)
        if loop is None:
            name = lambda n, c: ast.Name(id=n, ctx=c())
            if kind == 'dict':
                body = [ast.Assign(targets=[ast.Subscript(value=name('.dict', ast.Load), slice=node.key, ctx=ast.Store())],
                                   value=node.value)]
            else:
                body = [ast.Expr(ast.Call(func=ast.Attribute(value=name('.dict', ast.Load), attr='append', ctx=ast.Load()),
                                          args=[node.elt], keywords=[]))]
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            loop = ast.For(target=g.target, iter=name('.iter', ast.Load), body=body, orelse=[])
            ast.copy_location(loop, node)
            ast.fix_missing_locations(loop)
            node.as_loop = loop
        fr.locals['.iter'] = first
        fr.locals['.dict'] = interp.alloc({} if kind == 'dict' else [])
        interp.st_For(loop, fr)
        return fr.locals['.dict']

    def body(elem):
        fr = Frame(None, frame.globals, '<comp>', parent=frame, classcell=frame.classcell)
        interp.assign(g.target, elem, fr)
        for c in g.ifs:
            if not interp.truth(interp.ev(c, fr)):
                return NOTHANDLED
        return interp.ev(node.elt, fr)
    if kind == 'list' and g.ifs and not isinstance(first, SAtoms):
        def test(elem):
            fr = Frame(None, frame.globals, '<comp>', parent=frame, classcell=frame.classcell)
            interp.assign(g.target, elem, fr)
            return interp.all_of([interp.ev(c, fr) if i == 0 else interp.truth(interp.ev(c, fr))
                                  for i, c in enumerate(g.ifs)][:1]) if len(g.ifs) == 1 else \
                all(interp.truth(interp.ev(c, fr)) for c in g.ifs)
        kept = filtered(interp, first, test)

        def item(elem):
            fr = Frame(None, frame.globals, '<comp>', parent=frame, classcell=frame.classcell)
            interp.assign(g.target, elem, fr)
            return interp.ev(node.elt, fr)
        if isinstance(node.elt, ast.Name) and isinstance(g.target, ast.Name) and node.elt.id == g.target.id:
            return kept
        return [y for x in kept for y in (_map(interp, item, [x]) if type(x) is Seg else [item(x)])]
    if isinstance(first, SAtoms) or g.ifs or kind == 'set':
        # as a set of atoms: image of the members that pass the filter
        k, bound, elem = elem_of(interp, first)

        def run():
            v = body(elem())
            if v is NOTHANDLED:
                return 'skip', None
            t = interp.atom_term(v)
            if t is None:
                raise Unsupported('symbolic comprehension of non-atomic values')
            return 'value', t
        outs = generic(interp, guard(interp, run), bound, k, value_of=lambda t: t)
        if any(o.kind == 'raise' for o in outs):
            raise Unsupported('exception inside a symbolic comprehension')
        check_pure(outs)
        member = lambda a: z3.Exists([k], z3.And(bound, z3.Or([z3.And(o.pc, o.value == a) for o in outs
                                                               if o.kind == 'value'] or [z3.BoolVal(False)])))
        return SAtoms(member, set if kind == 'set' else list, getattr(first, 'null', None))
    return _map(interp, lambda e: body(e), first, frame)


def _map(interp, f, v, frame=None):
    seq = interp.as_seq(v)
    bufs = buffers(frame) if frame is not None else None
    if bufs:
        r = consume(interp, seq, bufs, f, lambda kk, o, key: kk == 'local' and not within(o, frame))
        if r is not NOTHANDLED:
            return r
    k = z3.Int(interp.ctx.name('k'))
    outs = generic(interp, guard(interp, lambda: ('value', f(seq.at(k)))), z3.And(0 <= k, k < seq.n), k)
    check_pure([o for o in outs if o.kind != 'raise'])
    if any(o.kind == 'raise' for o in outs):
        ctx = interp.ctx
        bound = z3.And(0 <= k, k < seq.n)
        leaves = z3.Or([o.pc for o in outs if o.kind == 'raise'])
        if ctx.choose(['none raises', 'one raises'], 'map') == 'none raises':
            ctx.assume(z3.ForAll([k], z3.Implies(bound, z3.Not(leaves))))
            if not ctx.feasible():
                raise PathKill()
        else:
            f(first_leaving(interp, seq, v, k, bound, leaves, lambda n: None))
            raise PathKill()
    return [Seg(SSeq(seq.n, lambda i: guarded(interp, lambda: f(seq.at(i))), list, 'map'))]


class Filtered(SSeq):
    """The elements of a sequence that satisfy a condition, in order."""


def filtered(interp, v, test):
    """List of the members x of v with test(x) (test: element -> bool or SBool)."""
    if isinstance(v, (list, tuple)) and len(v) > 1:
        out = []
        for x in list(v):
            if type(x) is Seg:
                out += filtered(interp, [x], test)
            elif interp.truth(test(x)):
                out.append(x)
        return out
    ctx = interp.ctx
    seq = interp.as_seq(v)
    k = z3.Int(ctx.name('k'))

    def run():
        r = test(seq.at(k))
        return 'value', r if isinstance(r, (bool, SBool)) else interp.truth(r)
    outs = generic(interp, guard(interp, run), z3.And(0 <= k, k < seq.n), k, value_of=bool_term)
    check_pure(outs)
    if any(o.kind != 'value' for o in outs):
        raise Unsupported('exception inside a symbolic filter')
    p = z3.Or([z3.And(o.pc, o.value) for o in outs] or [z3.BoolVal(False)])
    P = lambda i: z3.substitute(p, (k, i))
    tag = ctx.name('f')
    n = z3.Int('count.' + tag)
    idx = z3.Function('index.' + tag, I, I)
    pos = z3.Function('pos.' + tag, I, I)
    i, j = z3.Int(ctx.name('i')), z3.Int(ctx.name('j'))
    ctx.assume(z3.And(0 <= n, n <= seq.n))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= idx(j), idx(j) < seq.n, P(idx(j)), pos(idx(j)) == j)),
                         patterns=[idx(j)]))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), idx(i) < idx(j)),
                         patterns=[z3.MultiPattern(idx(i), idx(j))]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < seq.n, P(i)), z3.And(0 <= pos(i), pos(i) < n, idx(pos(i)) == i)),
                         patterns=[pos(i)]))

    def gen(q):
        ctx.assume(z3.Implies(z3.And(0 <= q, q < n), z3.And(0 <= idx(q), idx(q) < seq.n, P(idx(q)))))
        return seq.at(idx(q))
    f = Filtered(n, gen, list, 'filtered')
    f.pos_of, f.index_of, f.base, f.cond = pos, idx, seq, P
    return [Seg(f)]


def map_seq(interp, f, v):
    return _map(interp, lambda e: interp.call(f, [e]), v)


def next_gen(interp, g, default):
    """next(generator[, default]) of a fresh generator: the loop that stops at the first element."""
    if len(g.node.generators) != 1:
        raise Unsupported('next() over nested symbolic generators')
    if getattr(g, 'taken', False):
        raise Unsupported('resuming a symbolic generator')
    g.taken = True
    interp.ctx.journal.record('local', g, 'taken', lambda: setattr(g, 'taken', False))
    gen = g.node.generators[0]
    fr = Frame(None, g.frame.globals, '<comp>', parent=g.frame, classcell=g.frame.classcell)
    interp.ctx.journal.record('alloc', fr, None, lambda: None)
    loop = getattr(g.node, 'as_loop', None)
    if loop is None:
        name = lambda n, c: ast.Name(id=n, ctx=c())
        body = [ast.Assign(targets=[name('.found', ast.Store)], value=g.node.elt), ast.Break()]
        for c in reversed(gen.ifs):
            body = [ast.If(test=c, body=body, orelse=[])]
        loop = ast.For(target=gen.target, iter=name('.iter', ast.Load), body=body, orelse=[])
        ast.copy_location(loop, g.node.elt)
        ast.fix_missing_locations(loop)
        g.node.as_loop = loop
    fr.locals['.iter'] = g.first
    fr.locals['.found'] = NOTFOUND
    interp.st_For(loop, fr)
    v = fr.locals['.found']
    if v is NOTFOUND:
        if not default:
            interp.raise_py(StopIteration())
        return default[0]
    return v


NOTFOUND = object()


# ------------------------------------------------------------------------------------------------ for statements
def for_symbolic(interp, node, fr, v, orelse=True):
    """A local tuple that the body only extends (t += ...) is a list during the loop."""
    uses = {}
    for s in node.body:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
                uses.setdefault(n.target.id, []).append(n.target)
    tuples = [x for x in uses if type(fr.locals.get(x)) is tuple and
              not any(isinstance(n, ast.Name) and n.id == x and not any(n is u for u in uses[x])
                      for s in node.body + node.orelse for n in ast.walk(s))]
    if not tuples:
        return for_symbolic_(interp, node, fr, v, orelse)
    for x in tuples:
        xs = list(fr.locals[x])
        interp.ctx.journal.record('alloc', xs, None, lambda: None)
        interp._set_local(fr, x, xs)
    r = for_symbolic_(interp, node, fr, v, orelse)
    for x in tuples:
        interp._set_local(fr, x, tuple(fr.locals[x]))
    return r


def counters(node, fr):
    """Locals that every iteration adds a constant to, once, as its last or first or any top-level statement:
    name -> (value before the loop, step)."""
    stores = {}
    for s in node.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Continue):
                return {}
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                stores[n.id] = stores.get(n.id, 0) + 1
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)):
                return {}
    out = {}
    for s in node.body:
        if isinstance(s, ast.AugAssign) and isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.target, ast.Name) and \
                isinstance(s.value, ast.Constant) and type(s.value.value) is int and stores[s.target.id] == 1 and \
                s.target.id not in names_in(node.target):
            v = fr.locals.get(s.target.id)
            if type(v) is int or isinstance(v, SInt):
                c = s.value.value
                out[s.target.id] = (v.t if isinstance(v, SInt) else z3.IntVal(v), c if isinstance(s.op, ast.Add) else -c)
    return out


def set_counters(interp, fr, counts, i):
    for n, (v, c) in counts.items():
        interp._set_local(fr, n, mk_int(z3.simplify(v + c * i)))


def for_symbolic_(interp, node, fr, v, orelse=True):
    ctx = interp.ctx
    if isinstance(v, SAtoms):
        k, bound, elem = elem_of(interp, v)
        seq = None
        gens = lambda i: elem()
    else:
        seq = interp.as_seq(v)
        k = z3.Int(ctx.name('k'))
        bound = z3.And(0 <= k, k < seq.n)
        gens = seq.at
    targets = names_in(node.target)
    poison = set(targets)
    dicts = {}             # id -> dict written by the body
    counts = counters(node, fr) if seq is not None else {}
    if counts:
        plain = gens

        def gens(i):
            set_counters(interp, fr, counts, i)
            return plain(i)
    if seq is not None:
        bufs = buffers(fr)
        if bufs and consume_for(interp, node, fr, seq, bufs) is not NOTHANDLED:
            if orelse:
                interp.block(node.orelse, fr)
            return

    def iteration(elemval):
        """Run the body once; locals written by other iterations are dead at its start."""
        for n in poison:
            if n in fr.locals:
                interp._set_local(fr, n, Poison('loop'))
        interp.assign(node.target, elemval, fr)
        try:
            interp.block(node.body, fr)
        except ContinueSig:
            pass
        except BreakSig:
            return 'break', None
        except ReturnSig as r:
            return 'return', r.value
        return 'next', None

    def run():
        return iteration(gens(k))
    # which locals survive an iteration that stays in the loop?
    while True:
        if dicts:
            if counts:
                raise Unsupported('loop with a counter fills a dict')
            return dict_loop(interp, node, fr, seq, k, bound, gens, iteration, poison, list(dicts.values()), orelse)
        outs = generic(interp, guard(interp, run), bound, k)
        stay = [o for o in outs if o.kind == 'next']
        leave = [o for o in outs if o.kind != 'next']
        new = {key for o in stay for kind, obj, key in o.writes if kind == 'local' and obj is fr} - poison - set(counts)
        other = [1 for o in stay for kind, obj, key in o.writes if kind == 'local' and obj is not fr]
        if other:
            raise Unsupported('symbolic loop writes a local of another function')
        for o in stay:
            for kind, obj, key in o.writes:
                if kind == 'dict':
                    dicts[id(obj)] = obj
        if new:
            poison |= new
            continue
        if not dicts:
            break
    target = None          # the list appended to
    elem_writes = False
    for o in outs:
        touched = []
        for kind, obj, key in o.writes:
            if kind in ('local', 'axiom'):
                continue
            if kind == 'list':
                touched.append(obj)
            elif kind == 'cell' and not hasattr(obj, 'rope'):
                if not isinstance(obj, SDict):
                    raise Unsupported('symbolic loop changes %s' % type(obj).__name__)
                continue
            elif kind == 'attr' and o.kind == 'next' and seq is not None and is_elem(obj, seq, k, o):
                elem_writes = True
            elif o.kind != 'next':
                continue        # the leaving iteration is re-executed for real
            else:
                raise Unsupported('symbolic loop writes %s of %s' % (key, type(obj).__name__))
        if o.kind == 'next' and touched:
            if len({id(t) for t in touched}) > 1 or len(touched) > 1:
                raise Unsupported('symbolic loop appends to several lists')
            if target is not None and target is not touched[0]:
                raise Unsupported('symbolic loop appends to several lists')
            target = touched[0]
    if target is not None:
        for o in stay:
            if not any(kind == 'list' for kind, obj, key in o.writes):
                raise Unsupported('symbolic loop appends on some iterations only')
        if elem_writes or seq is None:
            raise Unsupported('symbolic loop mixes effects')

        def reads():
            # the body must not look at what it has appended so far
            target.append(Seg(UnreadableSeq()))
            ctx.journal.record('list', target, None, lambda: target.pop())
            return run()
        generic(interp, guard(interp, reads), bound, k)

    def appended(i):
        """Value appended by iteration i."""
        def go():
            saved = list(target)
            kind, val = guard(interp, lambda: iteration(gens(i)))()
            if kind != 'next':
                raise PathKill()
            if len(target) != len(saved) + 1 or any(a is not b for a, b in zip(target, saved)):
                raise Unsupported('loop body is not an append')
            x = target[-1]
            target[:] = saved
            ctx.journal.record('list', target, None, lambda: None)
            return x
        return resume(interp, fr, snap[0], snap[1], go)
    snap = [dict(fr.locals), ctx.journal.mark()]

    def apply_effects(n):
        if counts:
            set_counters(interp, fr, counts, n)
        if target is not None:
            ctx.touch(target)
            target.append(Seg(SSeq(n, appended, list, 'appended')))
        if elem_writes:
            if counts:
                raise Unsupported('loop with a counter changes its elements')
            old_gen = seq.gen

            def gen2(i):
                e = old_gen(i)
                resume(interp, fr, snap[0], snap[1], lambda: iteration(e))
                return e
            ctx.set_cell(seq, 'gen', gen2)
            ctx.set_cell(seq, 'cache', {})

    def finish(nonempty=None):
        # locals written by the loop are dead afterwards, unless the loop did not run
        for n in poison:
            interp._set_local(fr, n, Poison('loop'))

    if not leave:
        apply_effects(seq.n if seq is not None else None)
        finish()
        if orelse:
            interp.block(node.orelse, fr)
        return
    leaves = z3.Or([o.pc for o in leave])
    none_leaves = z3.ForAll([k], z3.Implies(bound, z3.Not(leaves)))
    if ctx.choose(['none leaves', 'one leaves'], 'loop') == 'none leaves':
        ctx.assume(none_leaves)
        if not ctx.feasible():
            raise PathKill()
        apply_effects(seq.n if seq is not None else None)
        finish()
        if orelse:
            interp.block(node.orelse, fr)
        return
    el = first_leaving(interp, seq, v, k, bound, leaves, apply_effects)
    return leave_at(interp, node, fr, el, poison)


def resume(interp, fr, snapshot, mark, fn):
    """Re-execute loop code later in the state of its locals at the loop; what it reads must not have changed since."""
    ctx = interp.ctx
    saved = dict(fr.locals)
    d = fr.locals

    def put(x):
        d.clear()
        d.update(x)
    ctx.journal.record('swap', fr, None, lambda: put(saved))
    put(snapshot)
    old = interp.read_log
    interp.read_log = set()
    here = ctx.journal.mark()
    reads = interp.read_log
    try:
        r = fn()
    finally:
        interp.read_log = old
        if old is not None:
            old |= reads
    made = {id(o) for kind, o, key, _ in ctx.journal.log[mark:here] if kind == 'alloc'}
    for kind, obj, key, _ in ctx.journal.log[mark:here]:
        if kind == 'attr' and (id(obj), key) in reads and id(obj) not in made:
            raise Unsupported('%s changes after the loop that uses it' % key)
    end = dict(d)
    ctx.journal.record('swap', fr, None, lambda: put(end))
    put(saved)
    return r


def first_leaving(interp, seq, v, k, bound, leaves, apply_effects):
    ctx = interp.ctx
    if seq is not None:
        k0 = witness(ctx, 'first')
        ctx.assume(z3.And(0 <= k0, k0 < seq.n))
        ctx.assume(z3.substitute(leaves, (k, k0)))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < k0), z3.Not(leaves))))
        if not ctx.feasible():
            raise PathKill()
        apply_effects(k0)
        return seq.at(k0)
    k0 = witness(ctx, 'first', Atom)
    ctx.assume(z3.substitute(bound, (k, k0)))
    ctx.assume(z3.substitute(leaves, (k, k0)))
    if not ctx.feasible():
        raise PathKill()
    isint = z3.Function('atom.isint', Atom, B)
    return SAtom(k0, isint(k0), v.null or null_value())


def leave_at(interp, node, fr, el, poison):
    for n in poison:
        if n in fr.locals:
            interp._set_local(fr, n, Poison('loop'))
    interp.assign(node.target, el, fr)
    try:
        interp.block(node.body, fr)
    except BreakSig:
        return 'break'
    except ContinueSig:
        pass
    raise PathKill()     # this iteration leaves by assumption; a path that does not is infeasible


# ------------------------------------------------------------------------------------------------ loops filling dicts
class LoopDict(SDict):
    """A dict as seen by one iteration of a loop that fills it: earlier iterations may have stored anything, so a
    lookup answers both ways (mode) and only one key per iteration may be asked for."""

    def __init__(self, mode):
        SDict.__init__(self, None, 'being filled')
        self.mode = mode            # 'absent' or 'present'
        self.asked = ()
        self.stored = ()

    def lookup(self, interp, key):
        for k2, v in self.stored:
            if interp.truth(interp.eq_or_is(k2, key)):
                return v
            raise Unsupported('loop body asks for several keys of the dict it fills')
        interp.ctx.set_cell(self, 'asked', self.asked + (key,))
        if self.mode == 'present':
            return Opaque('value stored by an earlier iteration')
        return ABSENT

    def store(self, interp, key, value):
        interp.ctx.journal.record('dict', self, None, lambda: None)
        interp.ctx.set_cell(self, 'stored', self.stored + ((key, value),))


FILLED, VIEWS = [], []          # for the specifications; reset by them


class Filled(SDict):
    """Contents of a dict after a loop that filled it."""

    def __init__(self, factory, stored=None, prior=None):
        SDict.__init__(self, factory, 'filled by a loop', may_be_absent=False)
        self.stored_by, self.prior = stored, prior
        self.view = None
        self.seen = ()
        self.seen = ()
        FILLED.append(self)

    def lookup(self, interp, key):
        for k, v in self.entries + self.seen:
            if interp.truth(interp.eq_or_is(k, key)):
                return v
        v = self.factory(key)
        m = interp.ctx.journal.mark()
        interp.ctx.set_cell(self, 'seen', self.seen + ((key, v),))
        interp.ctx.journal.relabel(m, 'lazy')
        return v

    def store(self, interp, key, value):
        ents = [(k, v) for k, v in self.entries if not interp.truth(interp.eq_or_is(k, key))]
        interp.ctx.journal.record('dict', self, None, lambda: None)
        interp.ctx.set_cell(self, 'entries', tuple(ents) + ((key, value),))

    def keys_stored(self, interp):
        """Formulas (condition, number, bound, key) of the keys stored, None if they are not all texts."""
        from .interp import OVERLAY
        out = []
        if isinstance(self.prior, SDict):
            r = getattr(self.prior, 'filled', None)
            r = r.keys_stored(interp) if r is not None else None
            if r is None:
                return None
            out += r
        elif self.prior:
            for q in self.prior:
                if not isinstance(q, (str, SStr)):
                    return None
                out.append((z3.BoolVal(True), None, None, q))
        return out + list(self.stored_by)

    def items_view(self, interp):
        """The dict as a sequence of unknown order: each key present once, with the value found under it."""
        from . import models
        if self.view is not None:
            return self.view
        if self.entries:
            raise Unsupported('iteration over a dict filled by a loop and changed afterwards')
        ks = self.keys_stored(interp)
        if ks is None or any(not isinstance(q, (str, SStr)) for _, _, _, q in ks):
            raise Unsupported('iteration over a dict filled by a loop')
        ctx = interp.ctx
        tag = ctx.name('d')
        m = z3.Int('count.' + tag)
        key = z3.Function('key.' + tag, I, z3.StringSort())
        pos = z3.Function('keypos.' + tag, z3.StringSort(), I)
        ctx.assume(m >= 0)
        i = z3.Int(ctx.name('i'))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), pos(key(i)) == i), patterns=[key(i)]))
        for pc, k, bound, q in ks:
            t = str_z3(q)
            f = z3.And(0 <= pos(t), pos(t) < m, key(pos(t)) == t)
            if k is not None:
                # the axiom holds for each iteration
                ctx.assume(z3.ForAll(k, z3.Implies(z3.And(bound, pc), f)))
            else:
                ctx.assume(f)

        def gen(i):
            q = mk_str([ZS(key(i))])
            v = self.factory(q)
            if v is ABSENT:
                raise PathKill()
            return (q, v)
        s = SSeq(m, gen, list, 'items')
        s.key_at = lambda i: mk_str([ZS(key(i))])
        s.key_fn, s.pos_fn = key, pos
        s.owner = self

        def position(q):
            """Position of a key (None: not there): every key present occurs."""
            if self.lookup(interp, q) is ABSENT:
                return None
            t = str_z3(q)
            ctx.assume(z3.And(0 <= pos(t), pos(t) < m, key(pos(t)) == t))
            return pos(t)
        s.position = position
        VIEWS.append(s)
        ctx.set_cell(self, 'view', s)
        return s


def dict_loop(interp, node, fr, seq, k, bound, gens, iteration, poison, dicts, orelse=True):
    """A loop that stores values in dicts under keys given by the element: either the first or the last store to a
    key wins."""
    from .interp import OVERLAY
    ctx = interp.ctx
    if seq is None:
        raise Unsupported('loop over a set fills a dict')
    native = []
    for d in dicts:
        if isinstance(d, SDict):
            # the overlay of a native dict is replaced as a whole
            holder = overlay_owner(interp, d)
            native.append(holder)
        else:
            native.append(d)
    native = list({id(d): d for d in native}.values())
    prior = []
    for d in native:
        if OVERLAY in d:
            p = d[OVERLAY]
            c = SDict(p.factory, p.label, p.may_be_absent, p.unknown)
            c.entries = p.entries + getattr(p, 'seen', ())
            if hasattr(p, 'accept'):
                c.accept = p.accept
            if isinstance(p, Filled) and not p.entries:
                c.filled = p
            prior.append(c)
        else:
            prior.append(dict(d))

    def with_mode(mode):
        lds = []
        for d in native:
            ctx.touch(d)
            d.clear()
            ld = LoopDict(mode)
            OWNERS[id(ld)] = (ld, d)
            d[OVERLAY] = ld
            lds.append(ld)
        return lds

    def runner(mode):
        def f():
            lds = with_mode(mode)
            m = ctx.journal.mark()
            try:
                kind, val = iteration(gens(k))
            except Signal:
                raise
            except Exception:
                if any(ld.asked for ld in lds):
                    raise Unsupported('loop filling a dict leaves depending on its contents')
                raise
            if kind != 'next' and any(ld.asked for ld in lds):
                raise Unsupported('loop filling a dict leaves depending on its contents')
            log = ctx.journal.log[m:]
            fresh = {id(o) for kk, o, key, _ in log if kk == 'alloc'}
            if kind == 'next':
                for kk, o, key, _ in log:
                    if kk in ('lazy', 'cache', 'alloc', 'axiom') or id(o) in fresh:
                        continue
                    if kk == 'local' and o is fr:
                        if key not in poison:
                            raise Again(key)
                        continue
                    if isinstance(o, LoopDict) or (kk == 'cell' and getattr(o, 'elem_part', False)):
                        continue
                    raise Unsupported('loop filling a dict also writes %s of %s' % (key, type(o).__name__))
            return kind, (val, [(ld.asked, ld.stored) for ld in lds])
        return guard(interp, f)
    while True:
        try:
            absent = generic(interp, runner('absent'), bound, k)
            present = generic(interp, runner('present'), bound, k)
            break
        except Again as e:
            poison.add(e.args[0])
    asks = False
    for o in absent + present:
        if o.kind != 'next':
            continue
        n = 0
        for asked, stored in o.value[1]:
            if len(stored) > 1:
                raise Unsupported('loop body stores several values in a dict')
            n += len(stored)
            asks = asks or bool(asked)
            for a in asked:
                for b, _ in stored:
                    if not ctx_same(interp, a, b):
                        raise Unsupported('loop body asks for a key other than the one it stores')
    pstores = any(stored for o in present if o.kind == 'next' for asked, stored in o.value[1])
    if asks and pstores:
        raise Unsupported('loop body replaces values depending on earlier ones')
    wins = 'first' if asks else 'last'
    if asks:
        # every store must be guarded by a question for its key
        for o in absent:
            if o.kind == 'next':
                for asked, stored in o.value[1]:
                    if stored and not asked:
                        raise Unsupported('loop body stores without asking')
    leave = [o for o in absent if o.kind != 'next']
    if leave and ([1 for o in present if o.kind != 'next'] != [1] * len(leave)):
        raise Unsupported('loop filling a dict leaves depending on its contents')

    def stores(i, d, q):
        """Formula: iteration i stores something under key q in dict number d (when q is not there yet)."""
        fs = []
        for o in absent:
            if o.kind != 'next':
                continue
            for key, val in o.value[1][d][1]:
                e = z3.And(o.raw, bool_term(interp.eq_or_is(key, q)))
                fs.append(z3.Exists(o.ex, e) if o.ex else e)
        f = z3.Or(fs) if fs else z3.BoolVal(False)
        return z3.substitute(f, (k, i))

    snap = [dict(fr.locals), ctx.journal.mark()]

    def value_at(j, d, q):
        """Re-execute iteration j and return what it stores in dict d."""
        def go():
            held = [dict(x) for x in native]
            lds = with_mode('absent')
            got = guard(interp, lambda: iteration(gens(j)))()
            if got[0] != 'next' or not lds[d].stored:
                raise PathKill()
            v = lds[d].stored[0][1]
            for x, s0 in zip(native, held):
                ctx.touch(x)
                x.clear()
                x.update(s0)
            return v
        return resume(interp, fr, snap[0], snap[1], go)

    def filled(d, n):
        def factory(q):
            from . import models
            if wins == 'first':
                p = models.dict_get(interp, prior[d], q)
                if p is not ABSENT:
                    return p
            i = z3.Int(ctx.name('i'))
            if ctx.choose(['some', 'none'], 'stored by the loop') == 'some':
                j = witness(ctx, 'stored')
                ctx.assume(z3.And(0 <= j, j < n, stores(j, d, q)))
                rest = z3.And(0 <= i, i < j) if wins == 'first' else z3.And(j < i, i < n)
                ctx.assume(z3.ForAll([i], z3.Implies(rest, z3.Not(stores(i, d, q)))))
                if not ctx.feasible():
                    raise PathKill()
                m = ctx.journal.mark()
                r = value_at(j, d, q)
                ctx.journal.relabel(m, 'lazy')
                return r
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Not(stores(i, d, q)))))
            if wins == 'last':
                return models.dict_get(interp, prior[d], q)
            return ABSENT
        return factory

    def apply_effects(n):
        for x, d in enumerate(native):
            ctx.touch(d)
            d.clear()
            b = z3.And(0 <= k, k < n)
            f = Filled(filled(x, n), [(o.raw, [k] + o.ex, b, q) for o in absent if o.kind == 'next' for q, _ in o.value[1][x][1]],
                       prior[x])
            OWNERS[id(f)] = (f, d)
            d[OVERLAY] = f
    if leave:
        leaves = z3.Or([o.pc for o in leave])
        if ctx.choose(['none leaves', 'one leaves'], 'loop') == 'one leaves':
            el = first_leaving(interp, seq, None, k, bound, leaves, apply_effects)
            return leave_at(interp, node, fr, el, poison)
        ctx.assume(z3.ForAll([k], z3.Implies(bound, z3.Not(leaves))))
        if not ctx.feasible():
            raise PathKill()
    apply_effects(seq.n)
    for n in poison:
        interp._set_local(fr, n, Poison('loop'))
    if orelse:
        interp.block(node.orelse, fr)


class Again(Signal):
    pass


OWNERS = {}


def overlay_owner(interp, d):
    o = OWNERS.get(id(d))
    if o is None or o[0] is not d:
        raise Unsupported('loop writes a symbolic dict')
    return o[1]


def ctx_same(interp, a, b):
    e = interp.eq_or_is(a, b)
    return e is True or (isinstance(e, SBool) and interp.ctx.entails(e.t))


class UnreadableSeq(SSeq):
    def __init__(self):
        self.cache = {}
        self.pytype = list
        self.label = 'unreadable'

    @property
    def n(self):
        raise Unsupported('loop body reads the list it appends to')

    def gen(self, i):
        raise Unsupported('loop body reads the list it appends to')


def is_elem(obj, seq, k, o):
    # elements are per-path objects, so compare by what the sequence generated for k on that path
    return getattr(obj, '__dict__', {}).get('_pyvc_index') is not None and \
        obj.__dict__['_pyvc_index'].eq(z3.simplify(k))


def names_in(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def aug_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
    return out


# ------------------------------------------------------------------------------------------------ byte buffers
def buffers(fr):
    """Byte buffers a loop body may consume from: reachable from the local variables."""
    out, seen = {}, set()

    def visit(v, depth):
        if isinstance(v, SBytes_()):
            if hasattr(v, 'setitem'):
                out[id(v)] = v
            return
        if id(v) in seen or depth > 2 or isinstance(v, (str, int, Sym, type)):
            return
        seen.add(id(v))
        if isinstance(v, (list, tuple)) and len(v) < 10:
            for x in v:
                visit(x, depth + 1)
        elif hasattr(v, '__dict__') and not callable(v) and type(v).__module__ not in ('builtins', 'types'):
            for x in list(v.__dict__.values()):
                visit(x, depth + 1)
    f = fr
    while f is not None:
        for v in list(f.locals.values()):
            visit(v, 0)
        f = f.parent
    return list(out.values())


def within(frame, fr):
    while fr is not None:
        if fr is frame:
            return True
        fr = fr.parent
    return False


def SBytes_():
    from .ropes import SBytes
    return SBytes


def consume(interp, seq, bufs, one, check_writes=None, stable=None):
    """A loop whose iteration i takes one element off the front of a byte buffer and yields one value.

    Invariant: before iteration i the buffer holds what T(i) says.  If the buffer starts with as many encoded elements
    as there are iterations, T(i) is the elements from i on and the rest, which is checked; otherwise T(i) is an
    arbitrary byte string.  Returns NOTHANDLED if the body does not touch a buffer."""
    from . import ropes
    ctx = interp.ctx
    n = seq.n
    entry = {id(b): b.rope for b in bufs}
    temps, heads = {}, {}
    for b in bufs:
        r = ropes.norm(b.rope)
        if r and isinstance(r[0], ropes.Rep) and r[0].unit is None and ctx.entails(r[0].hi - r[0].lo == n):
            p, rest = r[0], r[1:]
            heads[id(b)] = lambda i, p=p, rest=rest: ropes.norm(
                tuple(ropes.rope_of(p.seq.at(z3.simplify(p.lo + i)))) + (ropes.Rep(p.seq, z3.simplify(p.lo + i + 1), p.hi, p.unit),) + rest)
            temps[id(b)] = ('rep', lambda i, p=p, rest=rest: ropes.norm((ropes.Rep(p.seq, z3.simplify(p.lo + i), p.hi, p.unit),) + rest))
        else:
            F = z3.Function(ctx.name('buffer'), I, ropes.BYTES)
            temps[id(b)] = ('any', lambda i, F=F: (ropes.Raw(F(z3.simplify(i))),))
    k = z3.Int(ctx.name('k'))
    used, raises = set(), []

    def put(i, only=None):
        for b in bufs:
            if only is None or id(b) in only:
                ctx.set_cell(b, 'rope', temps[id(b)][1](i))

    def trial(only):
        def go():
            ctx.assume(z3.And(0 <= k, k < n))
            put(k, only)
            mark = ctx.journal.mark()
            stack = len(interp.stack)
            try:
                kind, v = guard(interp, lambda: ('value', one(seq.at(k))))()
            finally:
                del interp.stack[stack:]
            if kind == 'raise':
                raises.append(v)
                return
            log = ctx.journal.log[mark:]
            fresh = {id(o) for kk, o, key, _ in log if kk == 'alloc'}
            for kk, o, key, _ in log:
                if kk in ('lazy', 'cache', 'alloc', 'swap', 'axiom') or id(o) in fresh:
                    continue
                if kk == 'cell' and id(o) in temps:
                    used.add(id(o))
                    continue
                if kk == 'cell' and not hasattr(o, 'rope'):
                    if not isinstance(o, SDict):
                        raise Unsupported('symbolic loop changes %s' % type(o).__name__)
                    continue
                if check_writes is not None and check_writes(kk, o, key):
                    continue
                raise Unsupported('symbolic loop writes %s of %s' % (key, type(o).__name__))
            if only is not None:
                for b in bufs:
                    if id(b) in only and temps[id(b)][0] == 'rep':
                        want = temps[id(b)][1](z3.simplify(k + 1))
                        ctx.check('each iteration takes exactly one element off the buffer',
                                  bool_term(ropes.rope_eq(interp, b.rope, want)))
        ctx.explore(go)
    while True:
        used.clear()
        trial(None)
        if not used:
            return NOTHANDLED
        only = set(used)
        raises.clear()
        trial(only)
        if used != only:
            raise Unsupported('buffers of a symbolic loop')
        if stable is None or stable():
            break
    if raises and ctx.choose(['all pass', 'one fails'], 'loop') == 'one fails':
        k0 = witness(ctx, 'first')
        ctx.assume(z3.And(0 <= k0, k0 < n))
        if not ctx.feasible():
            raise PathKill()
        put(k0, only)
        getattr(one, 'direct', one)(seq.at(k0))
        raise PathKill()

    def at(i):
        saved = [(b, b.rope) for b in bufs if id(b) in only]
        for b in bufs:
            if id(b) in only:        # i is an index of the sequence: there is an element
                ctx.set_cell(b, 'rope', heads.get(id(b), temps[id(b)][1])(i))
        try:
            return guarded(interp, lambda: one(seq.at(i)))
        finally:
            for b, r in saved:
                ctx.set_cell(b, 'rope', r)
    put(n, only)
    return [Seg(SSeq(n, at, list, 'consumed'))]


def guarded(interp, f):
    kind, v = guard(interp, lambda: ('value', f()))()
    if kind == 'raise':
        raise PathKill()        # every iteration passed
    return v


def consume_for(interp, node, fr, seq, bufs):
    ctx = interp.ctx
    poison = set(names_in(node.target))
    targets = []

    def one(elem):
        for nm in poison:
            if nm in fr.locals:
                interp._set_local(fr, nm, Poison('loop'))
        interp.assign(node.target, elem, fr)
        mark = ctx.journal.mark()
        try:
            interp.block(node.body, fr)
        except ContinueSig:
            pass
        except (BreakSig, ReturnSig):
            raise Unsupported('a loop over a buffer is left')
        ls = [o for kk, o, key, _ in ctx.journal.log[mark:] if kk == 'list']
        fresh = {id(o) for kk, o, key, _ in ctx.journal.log[mark:] if kk == 'alloc'}
        ls = [o for o in ls if id(o) not in fresh]
        for kk, o, key, _ in ctx.journal.log[mark:]:
            if kk == 'local' and o is fr and key not in poison:
                new.add(key)
        if len(ls) > 1 or targets and ls and targets[0] is not ls[0]:
            raise Unsupported('symbolic loop appends to several lists')
        if not ls:
            return None
        if not targets:
            targets.append(ls[0])
        x = ls[0][-1] if ls[0] else None
        return x

    def isolated(elem):
        """one() with the target list hidden and restored."""
        for t in targets:
            saved = list(t)
            ctx.touch(t)
            t.append(Seg(UnreadableSeq()))
            x = one(elem)
            if len(t) == len(saved) + 1 and type(t[-1]) is Seg:
                raise Unsupported('symbolic loop appends on some iterations only')
            if len(t) != len(saved) + 2:
                raise Unsupported('loop body is not an append')
            t[:] = saved
            return x
        return one(elem)
    new = set()

    def writes_ok(kk, o, key):
        return kk == 'local' and (o is fr or not within(o, fr)) or kk == 'list' and targets and o is targets[0]
    snap, mark = dict(fr.locals), ctx.journal.mark()
    state = {'targets': 0, 'settled': False}

    def later(elem):
        return resume(interp, fr, snap, mark, lambda: isolated(elem)) if state['settled'] else isolated(elem)

    later.direct = one

    def stable():
        again = bool(new - poison) or len(targets) != state['targets']
        poison.update(new)
        new.clear()
        state['targets'] = len(targets)
        state['settled'] = not again
        return not again
    r = consume(interp, seq, bufs, later, writes_ok, stable)
    if r is NOTHANDLED:
        return r
    for nm in poison:
        interp._set_local(fr, nm, Poison('loop'))
    for t in targets:
        ctx.touch(t)
        t.extend(r)
    return None


# ------------------------------------------------------------------------------------------------ loops with a focus
class Ghost(SSeq):
    """Elements appended by iterations that are not looked at."""

    def __init__(self, n):
        SSeq.__init__(self, n, self.no, list, 'ghost')

    def no(self, i):
        raise Unsupported('element appended by an arbitrary iteration')


class GhostDict(SDict):
    """A dict filled by iterations that are not looked at."""

    def __init__(self, nonempty):
        SDict.__init__(self, None, 'filled by a loop')
        self.nonempty = nonempty
        self.stored = ()

    def lookup(self, interp, key):
        for k2, v in self.stored:
            if interp.truth(interp.eq_or_is(k2, key)):
                return v
        if interp.ctx.branch(z3.Bool(interp.ctx.name('present'))):
            return Opaque('value stored by another iteration')
        return ABSENT

    def store(self, interp, key, value):
        interp.ctx.journal.record('dict', self, None, lambda: None)
        interp.ctx.set_cell(self, 'stored', ((key, value),) + self.stored)

    def len(self, interp):
        n = z3.Int(interp.ctx.name('size'))
        interp.ctx.assume(n >= (1 if self.nonempty or self.stored else 0))
        return SInt(n)

    def truth(self, interp):
        return True if self.nonempty or self.stored else interp.ctx.branch(z3.Bool(interp.ctx.name('nonempty')))


def scalar_kind(v):
    if v is None:
        return 'none'
    if type(v) is bool or isinstance(v, SBool):
        return 'bool'
    if type(v) is int or isinstance(v, SInt):
        return 'int'
    return 'other'


def stored_in(node):
    names = names_in(node.target)
    out = set(names)
    for s in node.body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                out.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom)):
                raise Unsupported('%s in a symbolic loop' % type(n).__name__)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split('.')[0] for a in n.names}
    return out


UNARY = {
    'not negative': lambda x, init: x >= 0,
    'not below its initial value': lambda x, init: x >= init,
    'not above its initial value': lambda x, init: x <= init,
}
BINARY = {
    'never grows': lambda a, b: b <= a,
    'never shrinks': lambda a, b: b >= a,
}
BOOLEAN = {
    'stays false': lambda a, b: z3.Implies(b, a),
    'stays true': lambda a, b: z3.Implies(a, b),
}


class FocusLoop:
    """Loop over a sequence of unknown length of which one arbitrary element (index j) is of interest: the iterations
    before and after it are replaced by an arbitrary state that satisfies the invariants found, its own iteration is
    executed; an iteration that leaves the loop is executed from such a state as well.

    Invariants are conjectured for integer and boolean locals (see UNARY, BINARY, BOOLEAN) and kept if every iteration,
    from the initial state and from every state that satisfies them, preserves them (Houdini).  Lists may only be
    appended to, dicts only stored to."""

    def __init__(self, interp, node, fr, seq, j, roots=None):
        self.interp, self.ctx, self.node, self.fr, self.seq, self.j = interp, interp.ctx, node, fr, seq, j
        self.names = stored_in(node)
        self.start = dict(fr.locals)
        self.mark = self.ctx.journal.mark()
        self.roots = {}
        seen = set()
        for label, o in [(('local', n), v) for n, v in sorted(fr.locals.items())] + sorted((roots or {}).items()):
            if type(o) in (list, dict) and id(o) not in seen:
                seen.add(id(o))
                self.roots[label] = o
        self.base = {l: (list(o) if type(o) is list else dict(o)) for l, o in self.roots.items()}
        self.kinds = {}            # scalar local -> kinds of value it has after an iteration
        self.dead = set()
        self.cands = {}            # scalar local -> names of candidate invariants
        self.lists = {}            # label -> 'map' or 'mixed'
        self.dicts = {}            # label -> every iteration stores
        self.gen0 = seq.gen
        self.elem_writes = False
        self.absorbed = False

    # ------------------------------------------------------------------ states
    def later(self, after=None):
        """An arbitrary state after one or more iterations (after: locals of a state it follows, or nothing)."""
        it, ctx = self.interp, self.ctx
        for n in sorted(self.names):
            if n in self.dead or n not in self.kinds:
                if n in self.start or n in self.fr.locals:
                    it._set_local(self.fr, n, Poison('loop'))
                continue
            k = ctx.choose(sorted(self.kinds[n]), n)
            if k == 'none':
                it._set_local(self.fr, n, None)
                continue
            init = self.start.get(n)
            prev = None if after is None else after.get(n)
            cs = self.cands.get(n, ())
            if k == 'int':
                x = z3.Int(ctx.name(n))
                for c in cs:
                    if c in UNARY:
                        i = int_term(init) if scalar_kind(init) == 'int' else None
                        if i is not None or c == 'not negative':
                            ctx.assume(UNARY[c](x, i))
                    elif c in BINARY and prev is not None and scalar_kind(prev) == 'int':
                        ctx.assume(BINARY[c](int_term(prev), x))
                it._set_local(self.fr, n, SInt(x))
            else:
                x = z3.Bool(ctx.name(n))
                for c in cs:
                    if c in BOOLEAN and prev is not None and scalar_kind(prev) == 'bool':
                        ctx.assume(BOOLEAN[c](bool_term(prev), x))
                it._set_local(self.fr, n, SBool(x))

    def containers(self, k):
        """Contents of the containers written, after k (at least one) iterations."""
        for l in sorted(self.lists, key=repr):
            o = self.roots[l]
            self.ctx.touch(o)
            o[:] = self.base[l] + [Seg(self.appended(l, k))]
        for l, always in sorted(self.dicts.items(), key=repr):
            self.ghost(l, always or bool(self.base[l]))

    def ghost(self, l, nonempty):
        from .interp import OVERLAY
        d = self.roots[l]
        self.ctx.touch(d)
        d.clear()
        g = GhostDict(nonempty)
        OWNERS[id(g)] = (g, d)
        d[OVERLAY] = g

    def appended(self, l, k, items=None):
        ctx = self.ctx
        if self.lists[l] != 'map':
            n = z3.Int(ctx.name('appended'))
            ctx.assume(n >= 0)
            return Ghost(n)
        s = SSeq(k, lambda i: self.again(i, lambda: self.roots[l][-1]), list, 'appended')
        return s

    def again(self, i, value, elem=None):
        """Execute iteration i once more, for its effect on the element or the value it appends."""
        it, ctx = self.interp, self.ctx

        def go():
            held = {l: list(o) if type(o) is list else dict(o) for l, o in self.roots.items()}
            if ctx.choose(['first', 'later'], 'iteration') == 'first':
                ctx.assume(i == 0)
                self.initial()
            else:
                ctx.assume(i >= 1)
                self.later()
                self.containers(i)
            if not ctx.feasible():
                raise PathKill()
            kind, val = guard(it, lambda: self.iteration(self.gen0(i) if elem is None else elem))()
            if kind != 'next':
                raise PathKill()
            v = value()
            for l, o in self.roots.items():
                ctx.touch(o)
                if type(o) is list:
                    o[:] = held[l]
                else:
                    o.clear()
                    o.update(held[l])
            return v
        return resume(it, self.fr, self.start, self.mark, go)

    def initial(self):
        for l, o in self.roots.items():
            if l in self.lists or l in self.dicts:
                self.ctx.touch(o)
                if type(o) is list:
                    o[:] = self.base[l]
                else:
                    o.clear()
                    o.update(self.base[l])

    def iteration(self, elem):
        it = self.interp
        it.assign(self.node.target, elem, self.fr)
        try:
            it.block(self.node.body, self.fr)
        except ContinueSig:
            pass
        except BreakSig:
            return 'break', None
        except ReturnSig as r:
            return 'return', r.value
        return 'next', None

    # ------------------------------------------------------------------ analysis
    def probe(self, mode):
        it, ctx, fr = self.interp, self.ctx, self.fr
        recs = []

        def go():
            k = z3.Int(ctx.name('k'))
            ctx.assume(z3.And(0 <= k, k < self.seq.n, k == 0 if mode == 'first' else k >= 1))
            if not ctx.feasible():
                raise PathKill()
            if mode == 'later':
                self.later()
                self.containers(k)
            pre = dict(fr.locals)
            before = {l: list(o) if type(o) is list else dict(o) for l, o in self.roots.items()}
            elem = self.seq.at(k)
            mark = ctx.journal.mark()
            stack = len(it.stack)
            try:
                kind, val = guard(it, lambda: self.iteration(elem))()
            finally:
                del it.stack[stack:]
            if kind != 'next':
                return
            self.note(pre, before, elem, ctx.journal.log[mark:], mode, recs)
        ctx.explore(go)
        return recs

    def note(self, pre, before, elem, log, mode, recs):
        from .interp import OVERLAY
        it, ctx, fr = self.interp, self.ctx, self.fr
        fresh = {id(o) for kk, o, key, _ in log if kk == 'alloc'}
        ids = {id(o): l for l, o in self.roots.items()}
        rec = dict(lists={}, dicts=set(), kinds={}, drop=set(), elem=False)
        elems = elem if isinstance(elem, tuple) else (elem,)
        for kk, o, key, _ in log:
            if kk in ('lazy', 'cache', 'alloc', 'axiom') or id(o) in fresh:
                continue
            if kk == 'local':
                if o is not fr:
                    raise Unsupported('symbolic loop writes a local of another function')
            elif kk == 'list' and id(o) in ids:
                rec['lists'][ids[id(o)]] = None
            elif kk == 'dict' and (id(o) in ids or isinstance(o, SDict)):
                if isinstance(o, SDict):
                    o = overlay_owner(it, o)
                    if id(o) in fresh:
                        continue
                    if id(o) not in ids:
                        raise Unsupported('symbolic loop writes a dict')
                rec['dicts'].add(ids[id(o)])
            elif kk == 'attr' and any(o is e for e in elems):
                rec['elem'] = True
            elif kk == 'cell' and (getattr(o, 'elem_part', False)):
                rec['elem'] = True
            elif kk == 'cell' and (isinstance(o, SDict) or hasattr(o, 'rope')):
                pass
            elif kk == 'swap':
                pass
            else:
                raise Unsupported('symbolic loop writes %s of %s' % (key, type(o).__name__))
        for l in list(rec['lists']):
            a, b = before[l], self.roots[l]
            if len(b) < len(a) or any(x is not y for x, y in zip(a, b)):
                raise Unsupported('symbolic loop changes a list other than by appending')
            rec['lists'][l] = len(b) - len(a) if not has_seg_(b[len(a):]) else None
        for n in self.names:
            if n not in fr.locals or isinstance(fr.locals[n], Poison):
                continue
            v = fr.locals[n]
            kd = scalar_kind(v)
            rec['kinds'][n] = kd
            init = self.start.get(n)
            prev = pre.get(n)
            for c in self.cands.get(n, ()):
                ok = True
                if c in UNARY and kd == 'int':
                    i = int_term(init) if scalar_kind(init) == 'int' else None
                    ok = (i is not None or c == 'not negative') and ctx.entails(UNARY[c](int_term(v), i))
                elif c in BINARY and kd == 'int' and mode == 'later' and scalar_kind(prev) == 'int':
                    ok = ctx.entails(BINARY[c](int_term(prev), int_term(v)))
                elif c in BOOLEAN and kd == 'bool' and mode == 'later' and scalar_kind(prev) == 'bool':
                    ok = ctx.entails(BOOLEAN[c](bool_term(prev), bool_term(v)))
                if not ok:
                    rec['drop'].add((n, c))
        recs.append(rec)

    def analyse(self):
        every = set(UNARY) | set(BINARY) | set(BOOLEAN)
        while True:
            before = (dict(self.lists), dict(self.dicts), {n: set(k) for n, k in self.kinds.items()}, set(self.dead),
                      {n: set(c) for n, c in self.cands.items()})
            if self.absorb(self.probe('first'), every):
                self.absorb(self.probe('later'), every)
            if before == (self.lists, self.dicts, self.kinds, self.dead, self.cands):
                return

    def absorb(self, recs, every):
        for r in recs:
            self.elem_writes = self.elem_writes or r['elem']
            for n, k in r['kinds'].items():
                if n not in self.kinds:
                    self.kinds[n] = set()
                    self.cands[n] = set(every)
                self.kinds[n].add(k)
                if k == 'other' or scalar_kind(self.start.get(n, self)) == 'other' or n in names_in(self.node.target):
                    self.dead.add(n)
            for n, c in r['drop']:
                self.cands.get(n, set()).discard(c)
        for l in {l for r in recs for l in r['lists']} | set(self.lists):
            one = all(r['lists'].get(l) == 1 for r in recs) and (l in self.lists or not self.absorbed)
            self.lists[l] = 'map' if one and self.lists.get(l, 'map') == 'map' else 'mixed'
        for l in {l for r in recs for l in r['dicts']} | set(self.dicts):
            self.dicts[l] = self.dicts.get(l, not self.absorbed) and all(l in r['dicts'] for r in recs)
        self.absorbed = self.absorbed or bool(recs)
        return recs

    # ------------------------------------------------------------------ execution
    def run(self):
        it, ctx, fr = self.interp, self.ctx, self.fr
        key = (id(self.node), tuple(tuple(lv.prefix[:lv.pos]) for lv in ctx.levels))
        cache = it.__dict__.setdefault('focus_cache', {})
        if key not in cache:
            self.analyse()
            cache[key] = (self.lists, self.dicts, self.kinds, self.dead, self.cands, self.elem_writes, self.node)
        self.lists, self.dicts, self.kinds, self.dead, self.cands, self.elem_writes, _ = cache[key]
        n, j = self.seq.n, self.j
        how = ctx.choose(['focus first', 'focus later', 'leave first', 'leave later', 'empty'], 'loop')
        k = j if how.startswith('focus') else z3.Int(ctx.name('k'))
        if how == 'empty':
            ctx.assume(n <= 0)
        else:
            ctx.assume(z3.And(0 <= k, k < n, k == 0 if how.endswith('first') else k >= 1))
        if not ctx.feasible():
            raise PathKill()
        if how == 'empty':
            it.block(self.node.orelse, fr)
            return
        if how.endswith('later'):
            self.later()
            self.containers(k)
        elem = self.seq.at(k)
        held = {l: len(self.roots[l]) for l in self.lists}
        if how.startswith('leave'):
            kind, val = self.iteration(elem)
            if kind == 'break':
                return
            if kind == 'return':
                raise ReturnSig(val)
            raise PathKill()
        kind, val = guard(it, lambda: self.iteration(elem))()
        if kind != 'next':
            raise PathKill()
        end = dict(fr.locals)
        self.later(end)
        for l in sorted(self.lists, key=repr):
            o = self.roots[l]
            items = o[held[l]:]
            ctx.touch(o)
            if self.lists[l] == 'map':
                s = self.appended(l, n)
                i = z3.simplify(j)
                s.cache[i.get_id()] = (i, items[0])
                o[:] = self.base[l] + [Seg(s)]
            else:
                o[:] = o + [Seg(self.appended(l, n))]
        if self.elem_writes:
            seq, old = self.seq, self.seq.gen

            def gen2(i):
                e = old(i)
                self.again(i, lambda: None, e)
                return e
            i = z3.simplify(j)
            ctx.set_cell(seq, 'gen', gen2)
            ctx.set_cell(seq, 'cache', {i.get_id(): (i, elem)})
        it.block(self.node.orelse, fr)


def has_seg_(xs):
    return any(type(x) is Seg for x in xs)


def focus_loop(interp, node, fr, v, j, roots=None):
    FocusLoop(interp, node, fr, interp.as_seq(v), j, roots).run()
