"""C10: contracts of the encoder and decoder of policy trees and of the equality of nodes.

A tree is a sequence of nodes, numbered in the order the encoder visits them: node 0 is the root, the children of a node
follow it, each with its own subtree.  Everything about node k is a function of k, so a statement about a generic k is
one about every node of every tree.

  _encode_node(node k)   yields one byte string of its own and then those of its children, in order (unit 'encoding a
                         subtree'), so it yields the encodings of the nodes k, k+1, ... of the subtree by induction;
  encode and decode      on those: each round of the reading loop reads the next node; after linking, the rebuilt node k
                         has the kind, token and children of node k.
"""
import ast as pyast
import z3
from .common import *
from engine import ropes as R_
from engine import loops as L_
from engine.interp import BreakSig, ContinueSig, ReturnSig

import hgpl.ast as A
from hgpl.lexing import Token, TokenType as T

ENC = A.ASTEncoder
KINDS = [(A.OpNode, T.OP, 'word', 2), (A.BoolOpNode, T.BOOL_OP, 'word', 2), (A.NotNode, T.NOT_OP, 'word', 1),
         (A.BoolValNode, T.BOOL, 'bool', 0), (A.IntValNode, T.INT, 'int', 0), (A.FloatValNode, T.FLOAT, 'float', 0),
         (A.StringValNode, T.STRING, 'str', 0), (A.NullValNode, T.NULL, 'null', 0), (A.SetNode, T.LSET, 'none', 'n'),
         (A.UsrAttNode, T.USR_ATT, 'word', 0), (A.ObjAttNode, T.OBJ_ATT, 'word', 0), (A.AdmAttNode, T.ADM_ATT, 'word', 0),
         (A.ConAttNode, T.CON_ATT, 'word', 0), (A.EnvAttNode, T.ENV_ATT, 'word', 0)]
CONSTANTS = [i for i, k in enumerate(KINDS) if k[0] in (A.IntValNode, A.FloatValNode, A.StringValNode, A.NullValNode)]
SET = [k[0] for k in KINDS].index(A.SetNode)
ENCODE_NODE = ENC.__dict__.get('_encode_node')
ENCODE_NODE = getattr(ENCODE_NODE, '__func__', None)


class Tree:
    same = None         # whether two subtrees say the same (the induction hypothesis of ==)

    def __init__(self, h, tag=''):
        self.h, self.tag = h, tag
        I, F = V.I, lambda n, s: z3.Function(tag + 'node.' + n, V.I, s)
        self.kind, self.id, self.pos, self.int, self.size, self.many = (F(n, I) for n in ('kind', 'id', 'pos', 'int', 'size', 'children'))
        self.str, self.real = F('str', V.S), F('real', z3.RealSort())
        self.n = self.size(0)
        self.owner = z3.Function(tag + 'owner', I, I)
        k = z3.Int(tag + 'tree!k')
        self.ok = lambda k: z3.And(0 <= k, k < self.n)
        # distinct identifiers: there is a function from them to the node
        h.ctx.assume(z3.ForAll([k], z3.Implies(self.ok(k), self.owner(self.id(k)) == k), patterns=[self.id(k)]))
        h.ctx.assume(self.n >= 1)

    def value(self, k, kind):
        b = self.h.ctx.branch
        if kind == 'int':
            return SInt(self.int(k))
        if kind == 'float':
            return SReal(self.real(k))
        if kind == 'none':
            return None
        if kind == 'null':
            return 'NULL'
        if kind == 'bool':
            for w in ('TRUE', 'FALSE'):
                if b(self.str(k) == z3.StringVal(w)):
                    return w
            return 'UNDEF'
        if kind == 'word':
            self.h.ctx.assume(self.str(k) != z3.StringVal(''))
        return mk_str([ZS(self.str(k))])

    def kind_of(self, k, among=None):
        ctx = self.h.ctx
        among = list(range(len(KINDS))) if among is None else among
        ctx.assume(z3.Or([self.kind(k) == i for i in among]))
        for i in among[:-1]:
            if ctx.branch(self.kind(k) == i):
                return i
        ctx.assume(self.kind(k) == among[-1])
        return among[-1]

    def children(self, k, kind):
        """Indices of the children: a list of terms, or (count, function)."""
        arity = KINDS[kind][3]
        ctx = self.h.ctx
        s = self.size
        ctx.assume(z3.And(0 <= k, k + s(k) <= self.n))
        if arity == 'n':
            m = self.many(k)
            i = z3.Int('set!i')
            ctx.assume(z3.And(m >= 0, s(k) == 1 + m))
            return m, lambda j: z3.simplify(k + 1 + j)
        out, at = [], k + 1
        for _ in range(arity):
            ctx.assume(s(at) >= 1)
            out.append(z3.simplify(at))
            at = at + s(at)
        ctx.assume(k + s(k) == at)
        return out

    def node(self, k, among=None):
        h = self.h
        k = z3.simplify(k)
        kind = self.kind_of(k, among)
        cls, ttype, vk, arity = KINDS[kind]
        o = object.__new__(cls)
        tok = object.__new__(Token)
        tok.__dict__.update(type=ttype, pos=SInt(self.pos(k)), value=self.value(k, vk))
        cs = self.children(k, kind)
        if arity == 'n':
            m, f = cs
            h.ctx.assume(m >= 0)
            kids = [Seg(SSeq(m, lambda j: self.child(f(j), CONSTANTS), list, 'children'))]
        else:
            kids = [self.child(c) for c in cs]
        o.__dict__.update(token=tok, id=SInt(self.id(k)), result=None, _node_list=kids)
        if cls is A.SetNode:
            o.__dict__.update(start_token=tok, end_token=object.__new__(Token))
        o.__dict__['!index'], o.__dict__['!tree'] = k, self
        return o

    def child(self, k, among=None):
        return Child(self, k, among)

    def leaf(self, k):
        return z3.Or([self.kind(k) == i for i, kd in enumerate(KINDS) if kd[3] == 0])


class Child(Sym):
    """A child of a node: its identifier is known, it is made when anything else is looked at."""

    def __init__(self, tree, k, among):
        self.tree, self.k, self.among, self.obj = tree, k, among, None

    pytype = A.ASTNode

    def force(self):
        if self.obj is None:
            ctx = self.tree.h.ctx
            ctx.set_cell(self, 'obj', self.tree.node(self.k, self.among))
        return self.obj

    def attr(self, interp, name):
        if name == 'id':
            return SInt(self.tree.id(self.k))
        if name == '__eq__':
            return ModelFn(lambda i, a, k: i.eq(self, *a))
        if name == '__ne__':
            return ModelFn(lambda i, a, k: i.compare(pyast.NotEq(), self, *a))
        return interp.load_attr(self.force(), name)

    def set_attr(self, interp, name, v):
        raise Unsupported('changing a child')

    def truth(self, interp):
        return True


def index_of(v):
    if isinstance(v, Child):
        return v.k
    d = getattr(v, '__dict__', {})
    return d.get('!index')


# ------------------------------------------------------------------------------------------------ encoding a subtree
def subtree(h, kind):
    """_encode_node: one byte string of its own, then those of the children in order."""
    def body():
        t = Tree(h)
        k = z3.Int('k')
        h.ctx.assume(t.ok(k))
        enc = z3.Function('encoding', V.I, R_.BYTES)
        own = t.node(k, [kind])
        before = {n: v for n, v in own.__dict__.items()}
        tok = dict(own.token.__dict__)
        kids = list(own._node_list)
        calls = []

        def hook(interp, f, args, kwargs):
            if f is not ENCODE_NODE:
                return NOTHANDLED
            c = index_of(args[0]) if len(args) == 1 and not kwargs else None
            if c is None:
                raise Unsupported('_encode_node of something else')
            if args[0] is own:
                return NOTHANDLED
            if isinstance(args[0], Child) and args[0].among is not None:
                if h.ctx.entails(z3.BoolVal(True)) and calls_may_fail(h, t, c):
                    interp.raise_py(ValueError('encoding failed'))
                return (R_.SBytes((R_.Raw(enc(c)),)),)
            if h.ctx.choose(['encoded', 'fails'], 'child') == 'fails':
                interp.raise_py(ValueError('encoding failed'))
            seq = SSeq(t.size(c), lambda j: R_.SBytes((R_.Raw(enc(z3.simplify(c + j))),)), tuple, 'encodings')
            seq.subtree = c
            return (Seg(seq),)
        h.interp.call_hook = hook
        o = h.call(ENC._encode_node, own)
        same = all(n in own.__dict__ and own.__dict__[n] is v for n, v in before.items()) and len(own.__dict__) == len(before)
        h.check('encoding leaves the node unchanged', same and all(own.token.__dict__.get(n) is v for n, v in tok.items()) and
                len(own._node_list) == len(kids) and all(x is y for x, y in zip(own._node_list, kids)))
        if o.raised:
            return
        r = o.value
        h.check('the encodings are a sequence', isinstance(r, (tuple, list)) and len(r) >= 1, detail=repr(r))
        h.check('the first is a byte string', isinstance(r[0], (bytes, R_.SBytes)), detail=repr(r))
        if len(r) > 1 and all(type(x) is Seg and hasattr(x.seq, 'subtree') for x in r[1:]):
            # in any order
            order = {c.sexpr(): n for n, c in enumerate(t.children(k, kind))}
            r = r[:1] + type(r)(sorted(r[1:], key=lambda x: order[z3.simplify(x.seq.subtree).sexpr()]))
        seq = h.interp.as_seq(type(r)(r[1:]) if r[1:] else [])
        h.check('as many encodings as nodes', seq.n == t.size(k) - 1)
        h.cover('reachable')
        p = z3.Int('p')
        h.ctx.assume(z3.And(0 <= p, p < seq.n))
        if h.ctx.feasible():
            e = h.interp.as_seq(r[1:]).at(p)
            want = R_.SBytes((R_.Raw(enc(z3.simplify(k + 1 + p))),))
            if KINDS[kind][3] == 'n' and h.ctx.entails(h.eq(e, R_.SBytes((R_.Raw(enc(z3.simplify(k + seq.n - p))),)))):
                raise Unsupported('the elements of a set are encoded in reverse')
            h.check('the children are encoded in order', h.eq(e, want), detail=repr((e, want)))
    h.run(body)


def calls_may_fail(h, t, c):
    ok = z3.Function('encodable', V.I, V.B)
    return not h.ctx.branch(ok(c))


for _i, _k in enumerate(KINDS):
    add_unit('C10', 'encoding a subtree: %s' % _k[0].__name__, lambda h, i=_i: subtree(h, i))


# ------------------------------------------------------------------------------------------------ round trip
class Ref(Sym):
    """A rebuilt node, known by its number."""

    def __init__(self, table, k):
        self.table, self.k = table, k

    pytype = A.ASTNode

    def truth(self, interp):
        return True

    def attr(self, interp, name):
        if self.table.linking:
            raise Unsupported('the linking loop looks at another node')
        return interp.load_attr(self.table.obj(self.k), name)

    def set_attr(self, interp, name, v):
        raise Unsupported('changing a rebuilt node')

    def sym_eq(self, interp, o):
        raise Unsupported('comparing rebuilt nodes')

    def is_instance(self, interp, cls):
        return issubclass(A.ASTNode, cls) or None


class Table(Sym):
    """The dict of the rebuilt nodes after the reading loop."""

    def __init__(self, trip, make):
        self.trip, self.make, self.passes, self.linking = trip, make, [], False

    pytype = dict

    def lookup(self, key):
        t, ctx = self.trip.tree, self.trip.h.ctx
        if isinstance(key, bool) or not isinstance(key, (int, SInt)):
            return None
        q = z3.simplify(key.t if isinstance(key, SInt) else z3.IntVal(key))
        if z3.is_app(q) and q.decl().eq(t.id) and ctx.entails(t.ok(q.arg(0))):
            return Ref(self, z3.simplify(q.arg(0)))
        k = t.owner(q)
        if ctx.branch(z3.And(t.ok(k), t.id(k) == q)):
            return Ref(self, k)
        return None

    def contains(self, interp, x):
        return self.lookup(x) is not None

    def getitem(self, interp, x):
        r = self.lookup(x)
        if r is None:
            interp.raise_py(KeyError(x))
        return r

    def length_term(self, interp):
        return self.trip.tree.n

    def method(self, interp, name, args, kwargs):
        if name == 'get':
            r = self.lookup(args[0])
            return r if r is not None else (args[1] if len(args) > 1 else None)
        if name in ('items', 'values', 'keys') and not args:
            return View(self, name)
        raise Unsupported('dict.%s of the rebuilt nodes' % name)

    def entry(self, what, k):
        i = SInt(self.trip.tree.id(k))
        return i if what == 'keys' else self.obj(k) if what == 'values' else (i, self.obj(k))

    def obj(self, k):
        """Rebuilt node k: the reading round that makes it, then what the linking loops do with it."""
        o = self.make(k)
        for p in self.passes:
            p(k, o)
        return o

    def iterate(self, interp):
        return None

    def as_seq(self, interp):
        return View(self, 'keys').as_seq(interp)


class View(Sym):
    def __init__(self, table, what):
        self.table, self.what = table, what

    pytype = list

    def iterate(self, interp):
        return None

    def as_seq(self, interp):
        def gen(k):
            raise Unsupported('reading the rebuilt nodes outside of a loop')
        return SSeq(self.table.trip.tree.n, gen, list, 'nodes')

    def length_term(self, interp):
        return self.table.trip.tree.n


class Trip:
    """Encodes and decodes."""

    def __init__(self, h, tree):
        self.h, self.tree = h, tree
        self.depth = 0

    def encoding(self, k):
        """The byte string of node k: what _encode_node yields first."""
        h = self.h
        own = self.tree.node(k)
        old, h.interp.call_hook = h.interp.call_hook, self.inner
        try:
            r = L_.guarded(h.interp, lambda: h.interp.run_repo(ENCODE_NODE, [own], {}))
        finally:
            h.interp.call_hook = old
        return r[0]

    def inner(self, interp, f, args, kwargs):
        if f is ENCODE_NODE:
            return ()
        return NOTHANDLED

    def outer(self, interp, f, args, kwargs):
        if f is ENCODE_NODE:
            if len(args) != 1 or kwargs or index_of(args[0]) is None or not self.tree.h.ctx.entails(index_of(args[0]) == 0):
                raise Unsupported('_encode_node of something else')
            self.asked = True
            if self.h.ctx.choose(['encoded', 'fails'], 'encoding') == 'fails':
                interp.raise_py(ValueError('encoding failed'))
            seq = SSeq(self.tree.n, self.encoding, tuple, 'encodings')
            seq.repkey = ('the encodings of the nodes',)
            seq.unit = None
            return (Seg(seq),)
        return NOTHANDLED

    # the loops of decode -------------------------------------------------------------------------
    def loop(self, interp, node, fr, v):
        if not isinstance(node, pyast.For):
            return NOTHANDLED
        if isinstance(v, Table):
            v = View(v, 'keys')
        if isinstance(v, View):
            return self.linking(interp, node, fr, v)
        bufs = {}
        for n, x in fr.locals.items():
            if isinstance(x, R_.SBytes):
                r = R_.norm(x.rope)
                for i, p in enumerate(r):
                    if isinstance(p, R_.Rep) and p.unit is None and z3.simplify(p.lo).eq(z3.IntVal(0)) and \
                            self.h.ctx.entails(p.hi == self.tree.n):
                        bufs[n] = (r, i)
        if not bufs or any(isinstance(x, Table) for x in fr.locals.values()):
            return NOTHANDLED
        if not self.h.ctx.entails(interp.as_seq(v).n == self.tree.n):
            raise Unsupported('the number of rounds of the reading loop')
        return self.reading(interp, node, fr, interp.as_seq(v), bufs)

    def reading(self, interp, node, fr, seq, bufs):
        h, ctx, t = self.h, self.h.ctx, self.tree
        written = {x.id for s in node.body for x in pyast.walk(s) if isinstance(x, pyast.Name) and isinstance(x.ctx, pyast.Store)}
        written |= set(L_.names_in(node.target))
        if written & set(bufs) or node.orelse:
            raise Unsupported('the reading loop changes the data')
        dicts = [n for n, x in fr.locals.items() if type(x) is dict]
        if len(dicts) != 1 or fr.locals[dicts[0]]:
            raise Unsupported('the dict of the nodes')
        (pre, at), = [(r[:i], i) for r, i in list(bufs.values())[:1]]
        start = R_.length(interp, pre)
        offsets = set()
        for n in written:
            x = fr.locals.get(n)
            if isinstance(x, (int, SInt)) and not isinstance(x, bool):
                if ctx.entails((x.t if isinstance(x, SInt) else z3.IntVal(x)) == start):
                    offsets.add(n)
        before = z3.Function(ctx.name('before'), V.I, R_.BYTES)
        after = z3.Function(ctx.name('after'), V.I, R_.BYTES)
        entry = dict(fr.locals)
        mark = ctx.journal.mark()

        def round_(k):
            """One round at node k; returns what it stores."""
            store = {}
            el = None
            for n, (r, i) in bufs.items():
                el = R_.rope_of(r[i].seq.at(k))
                rope = R_.norm(r[:i] + (R_.Raw(before(k)),) + tuple(el) + (R_.Raw(after(k)),) + r[i + 1:])
                interp._set_local(fr, n, R_.SBytes(rope))
            ctx.assume(z3.And(R_.blen(before(k)) >= 0, R_.blen(after(k)) >= 0))
            off = z3.simplify(start + R_.blen(before(k)))
            for n in written:
                if n in offsets:
                    interp._set_local(fr, n, SInt(off))
                elif n in fr.locals:
                    interp._set_local(fr, n, Poison('loop'))
            rec = Recorder()
            interp._set_local(fr, dicts[0], rec)
            interp.assign(node.target, seq.at(k), fr)
            m = ctx.journal.mark()
            frames = list(interp.stack) + [fr]
            try:
                interp.block(node.body, fr)
            except ContinueSig:
                pass
            except (BreakSig, ReturnSig):
                raise Unsupported('the reading loop is left')
            log = ctx.journal.log[m:]
            fresh = {id(o) for kk, o, key, _ in log if kk == 'alloc'}
            counters = []
            for kk, o, key, _ in log:
                if kk in ('lazy', 'cache', 'alloc', 'swap', 'axiom') or id(o) in fresh or o is rec:
                    continue
                if kk == 'local' and all(o is not g for g in frames):
                    continue
                if kk == 'local' and o is fr:
                    if key not in written:
                        raise Unsupported('the reading loop writes %s' % key)
                    continue
                if kk == 'attr' and o is A.ASTNode and key == '_last_id':
                    continue
                if kk == 'cell' and not hasattr(o, 'rope'):
                    continue
                raise Unsupported('the reading loop writes %s of %s' % (key, type(o).__name__))
            return rec, off, R_.length(interp, el)
        if ctx.choose(['a round', 'all rounds'], 'reading') == 'a round':
            k = z3.Int(ctx.name('k'))
            ctx.assume(t.ok(k))
            rec, off, size = round_(k)
            for n in offsets:
                v = fr.locals[n]
                h.check('each round moves on by one node', (v.t if isinstance(v, SInt) else z3.IntVal(v)) == off + size)
            h.check('each round stores one node', len(rec.stored) == 1)
            key, val = rec.stored[0]
            h.check('under its identifier', h.eq(key, SInt(t.id(k))))
            h.cover('a round')
            raise PathKill()

        def make(k):
            def go():
                rec, _, _ = round_(k)
                if len(rec.stored) != 1:
                    raise PathKill()
                return rec.stored[0][1]
            return L_.guarded(interp, lambda: L_.resume(interp, fr, entry, mark, go))
        table = Table(self, make)
        for n in written:
            if n in offsets:
                interp._set_local(fr, n, SInt(z3.Int(ctx.name('end'))))
            elif n in fr.locals:
                interp._set_local(fr, n, Poison('loop'))
        interp._set_local(fr, dicts[0], table)

    def linking(self, interp, node, fr, view):
        h, ctx, t = self.h, self.h.ctx, self.tree
        table, what = view.table, view.what
        if table.linking or node.orelse:
            raise Unsupported('nested loops over the rebuilt nodes')
        written = {x.id for s in node.body for x in pyast.walk(s) if isinstance(x, pyast.Name) and isinstance(x.ctx, pyast.Store)}
        written |= set(L_.names_in(node.target))
        entry = dict(fr.locals)
        mark = ctx.journal.mark()

        def round_(k, el, mine):
            for n in written:
                if n in fr.locals:
                    interp._set_local(fr, n, Poison('loop'))
            interp.assign(node.target, el, fr)
            ctx.set_cell(table, 'linking', True)
            m = ctx.journal.mark()
            frames = list(interp.stack) + [fr]
            try:
                interp.block(node.body, fr)
            except ContinueSig:
                pass
            except (BreakSig, ReturnSig):
                raise Unsupported('the linking loop is left')
            log = ctx.journal.log[m:]
            fresh = {id(o) for kk, o, key, _ in log if kk == 'alloc'} | mine
            for kk, o, key, _ in log:
                if kk in ('lazy', 'cache', 'alloc', 'swap', 'axiom') or id(o) in fresh:
                    continue
                if kk == 'local' and (o is fr and key in written or all(o is not g for g in frames)):
                    continue
                if kk == 'cell' and not hasattr(o, 'rope'):
                    continue
                raise Unsupported('the linking loop writes %s of %s' % (key, type(o).__name__))
            ctx.set_cell(table, 'linking', False)

        def owned(o):
            out = {id(o)}
            for x in o.__dict__.values():
                if isinstance(x, list):
                    out.add(id(x))
            return out
        if ctx.choose(['a round', 'all rounds'], 'linking') == 'a round':
            k = z3.Int(ctx.name('k'))
            ctx.assume(t.ok(k))
            el = table.entry(what, k)
            o = el[1] if what == 'items' else el if what == 'values' else None
            round_(k, el, owned(o) if o is not None else set())
            h.cover('a round of linking')
            raise PathKill()
        if what == 'keys':
            raise Unsupported('linking by key')

        def again(k, o):
            el = (SInt(t.id(k)), o) if what == 'items' else o
            L_.guarded(interp, lambda: L_.resume(interp, fr, entry, mark, lambda: round_(k, el, owned(o))))
        for n in written:
            if n in fr.locals:
                interp._set_local(fr, n, Poison('loop'))
        ctx.set_cell(table, 'passes', table.passes + [again])


class Recorder(Sym):
    """The dict of the nodes during a round of the reading loop."""

    def __init__(self):
        self.stored = []

    pytype = dict

    def setitem(self, interp, key, v):
        interp.ctx.set_cell(self, 'stored', self.stored + [(key, v)])


def round_trip(h):
    def body():
        t = Tree(h)
        trip = Trip(h, t)
        root = t.child(z3.IntVal(0))
        b64 = h.choose([False, True], 'base64')
        h.interp.call_hook = trip.outer
        o = h.call(ENC.encode, root, b64)
        if o.raised:
            return
        h.check('the encoding is a byte string', isinstance(o.value, (bytes, R_.SBytes)), detail=repr(o))
        if not getattr(trip, 'asked', False):
            raise Unsupported('encode does not use _encode_node')
        h.interp.call_hook = None
        h.interp.loop_hook = trip.loop
        back = h.call(ENC.decode, o.value, b64)
        h.interp.loop_hook = None
        h.check('decoding does not fail', not back.raised, detail=repr(back))
        r = back.value
        if not isinstance(r, Ref):
            raise Unsupported('decode returns %r' % (r,))
        h.check('the root is returned', r.k == 0)
        k = z3.Int('k')
        h.ctx.assume(t.ok(k))
        want = t.node(k)
        h.interp.loop_hook = trip.loop
        got = r.table.obj(k)
        h.check('the same kind of node', type(got) is type(want), detail=repr((type(got), type(want))))
        tok = h.get(got, 'token')
        h.check('the token is a token', type(tok) is Token, detail=repr(type(tok)))
        h.check('the same token type', tok.type is want.token.type, detail=repr(tok.type))
        h.check('the same position', h.eq(tok.pos, want.token.pos), detail=repr(tok.pos))
        x, y = tok.value, want.token.value
        h.check('the constant has the same type', pytype_of(x) is pytype_of(y), detail=repr((x, y)))
        h.check('the same constant', h.eq(x, y) if y is not None else x is None, detail=repr((x, y)))
        initial(h, got, want)
        kids = h.get(got, '_node_list')
        h.check('the children are a list', isinstance(kids, list), detail=repr(kids))
        kind = [c for c, _, _, _ in KINDS].index(type(want))
        cs = t.children(k, kind)
        if isinstance(cs, tuple):
            m, f = cs
            seq = h.interp.as_seq(kids)
            h.check('as many children', seq.n == m)
            j = z3.Int('j')
            h.ctx.assume(z3.And(0 <= j, j < m))
            if h.ctx.feasible():
                c = seq.at(j)
                h.check('the same children', isinstance(c, Ref) and c.table is r.table and c.k == f(j), detail=repr(c))
        else:
            h.check('as many children', not has_seg(kids) and len(kids) == len(cs), detail=repr(kids))
            for c, q in zip(kids, cs):
                h.check('the same children', z3.And(isinstance(c, Ref) and c.table is r.table, c.k == q), detail=repr(c))
        h.cover('reachable')
    h.run(body)


def initial(h, got, want):
    """Constants carry their value like freshly parsed ones."""
    r = h.get(got, 'result')
    if isinstance(want, A.NullValNode):
        h.check('NULL has its value', isinstance(r, A.ASTNullVal), detail=repr(r))
    elif isinstance(want, A.BoolValNode):
        w = {'TRUE': A.ASTResult.TRUE, 'FALSE': A.ASTResult.FALSE}.get(want.token.value, A.ASTResult.UNDEF)
        h.check('truth values have their value', r is w, detail=repr(r))
    elif isinstance(want, A.ValNode):
        h.check('constants have their value', h.eq(r, want.token.value), detail=repr(r))
    else:
        h.check('other nodes have no result yet', r is None, detail=repr(r))


add_unit('C10', 'encode and decode', round_trip)


# ------------------------------------------------------------------------------------------------ equality
def equality(h, op, ka):
    def body():
        t, u = Tree(h, 'a.'), Tree(h, 'b.')
        t.same = u.same = z3.Function('same', V.I, V.I, V.B)
        i, j = z3.Ints('i j')
        h.ctx.assume(t.ok(i))
        h.ctx.assume(u.ok(j))
        x, y = t.node(i, [ka]), u.node(j)
        kb = [c for c, _, _, _ in KINDS].index(type(y))

        def hook(interp, f, args, kwargs):
            """The induction hypothesis: == on children."""
            if f is A.ASTNode.__eq__ and not kwargs and any(isinstance(c, Child) for c in args):
                if not all(isinstance(c, Child) for c in args) or args[0].tree is args[1].tree:
                    raise Unsupported('comparing a child with something else')
                c, d = args if args[0].tree is t else (args[1], args[0])
                return mk_bool(t.same(c.k, d.k))
            return NOTHANDLED
        h.interp.call_hook = hook
        o = h.call(ModelFn(lambda it, a, k: it.compare(op, *a)), x, y)
        h.check('comparing does not fail', not o.raised, detail=repr(o))
        h.check('the answer is a truth value', isinstance(o.value, (bool, SBool)), detail=repr(o.value))
        r = bool_term(o.value) if isinstance(op, pyast.Eq) else z3.Not(bool_term(o.value))
        if ka != kb:
            h.check('different kinds of node are not equal', z3.Not(r))
            return
        v, w = x.token.value, y.token.value
        want = [h.eq(v, w) if v is not None and w is not None else z3.BoolVal(v is None and w is None), t.pos(i) == u.pos(j)]
        cs, ds = t.children(i, ka), u.children(j, kb)
        if isinstance(cs, tuple):
            q = z3.Int('q')
            want += [cs[0] == ds[0], z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < cs[0]), t.same(cs[1](q), ds[1](q))))]
        else:
            want += [t.same(c, d) for c, d in zip(cs, ds)]
        if h.choose(['if', 'only if']) == 'if':
            h.check('equal if they say the same', z3.Implies(z3.And(want), r))
        else:
            for w in want:
                h.check('equal only if they say the same', z3.Implies(r, w))
        h.cover('reachable')
    h.run(body)


for _i, _k in enumerate(KINDS):
    add_unit('C10', 'equality of nodes: %s' % _k[0].__name__, lambda h, i=_i: equality(h, pyast.Eq(), i))
    add_unit('C10', 'inequality of nodes: %s' % _k[0].__name__, lambda h, i=_i: equality(h, pyast.NotEq(), i))
