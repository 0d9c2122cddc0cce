"""C06 and the parsing half of C08: contracts of the rules of the recursive descent parser.

Specification: one partial function per nonterminal of the grammar, over positions of the token sequence:
ok_R(p) (a phrase of kind R starts at p), end_R(p) (position after it), tree_R(p) (its tree).  The grammar is LL(2),
so these functions are well defined; repetition (`term *("OR" term)`) is described by tail-recursive functions of
(position, tree so far), which also serve as loop invariants ("what remains to be parsed gives the same result").

Each method of Parser that implements a nonterminal (found by running the methods on sample sequences) gets the
contract of that nonterminal: its body is executed on a token sequence of unknown length from an unknown position,
calls of other rules are replaced by their contracts, and the result must be the one of the specification.
"""
import random
import ast as pyast
import types
import z3
from .common import *

import hgpl.ast as A
import hgpl.errors as E
import hgpl.parsing as P
from hgpl.lexing import Lexer, Token, TokenType as TT

Tree = z3.Datatype('Tree')
Tree.declare('Leaf', ('leaf', I))
Tree.declare('Cmp', ('cop', I), ('cl', Tree), ('cr', Tree))
Tree.declare('Bin', ('bop', I), ('bl', Tree), ('br', Tree))
Tree.declare('Neg', ('ntok', I), ('nsub', Tree))
Tree.declare('SetT', ('sopen', I), ('sclose', I))
Tree = Tree.create()

ATTS = {TT.USR_ATT: A.UsrAttNode, TT.OBJ_ATT: A.ObjAttNode, TT.ADM_ATT: A.AdmAttNode, TT.ENV_ATT: A.EnvAttNode,
        TT.CON_ATT: A.ConAttNode}
ATOMIC = {TT.INT: A.IntValNode, TT.FLOAT: A.FloatValNode, TT.STRING: A.StringValNode, TT.NULL: A.NullValNode}
LEAF = dict(ATTS)
LEAF.update(ATOMIC)
LEAF[TT.BOOL] = A.BoolValNode
POLICY = 'the policy text'


# ------------------------------------------------------------------------------------------------ reference (concrete)
class Ref:
    """The same functions on a concrete token list: R(i) -> (end, tree) or None."""

    def __init__(self, toks):
        self.t = toks

    def ty(self, i):
        return self.t[i].type if 0 <= i < len(self.t) else None

    def att(self, i):
        return (i + 1, ('leaf', i)) if self.ty(i) in ATTS else None

    def atomic(self, i):
        return (i + 1, ('leaf', i)) if self.ty(i) in ATOMIC else None

    def boolvar(self, i):
        return (i + 1, ('leaf', i)) if self.ty(i) in ATTS or self.ty(i) is TT.BOOL else None

    def set(self, i):
        if self.ty(i) is not TT.LSET:
            return None
        q = i + 1
        if self.ty(q) is TT.RSET:
            return q + 1, ('set', i, q)
        while True:
            if not self.atomic(q):
                return None
            if self.ty(q + 1) is TT.RSET:
                return q + 2, ('set', i, q + 1)
            if self.ty(q + 1) is not TT.COMMA:
                return None
            q += 2

    def const(self, i):
        return self.atomic(i) or self.set(i)

    def var(self, i):
        return self.att(i) or self.const(i)

    def exp(self, i):
        if self.ty(i) is TT.NOT_OP:
            if self.ty(i + 1) is TT.LPARN:
                r = self.policy(i + 2)
                return (r[0] + 1, ('neg', i, r[1])) if r and self.ty(r[0]) is TT.RPARN else None
            r = self.boolvar(i + 1)
            return (r[0], ('neg', i, r[1])) if r else None
        if self.ty(i) is TT.LPARN:
            r = self.policy(i + 1)
            return (r[0] + 1, r[1]) if r and self.ty(r[0]) is TT.RPARN else None
        v = self.var(i)
        if v and self.ty(v[0]) is TT.OP:
            r = self.var(v[0] + 1)
            return (r[0], ('cmp', v[0], v[1], r[1])) if r else None
        return self.boolvar(i)

    def chain(self, sub, word, i):
        r = sub(i)
        while r and self.ty(r[0]) is TT.BOOL_OP and self.t[r[0]].value == word:
            s = sub(r[0] + 1)
            r = (s[0], ('bin', r[0], r[1], s[1])) if s else None
        return r

    def term(self, i):
        return self.chain(self.exp, 'AND', i)

    def policy(self, i):
        return self.chain(self.term, 'OR', i)


RULES = ['att', 'atomic', 'boolvar', 'set', 'const', 'var', 'exp', 'term', 'policy']
RANK = {r: i for i, r in enumerate(RULES)}


def concrete_tree(node, index):
    c = type(node)
    t = index.get(id(node.token))
    kids = node.children()
    if c is A.OpNode:
        return ('cmp', t) + tuple(concrete_tree(k, index) for k in kids)
    if c is A.BoolOpNode:
        return ('bin', t) + tuple(concrete_tree(k, index) for k in kids)
    if c is A.NotNode:
        return ('neg', t) + tuple(concrete_tree(k, index) for k in kids)
    if c is A.SetNode:
        ks = [concrete_tree(k, index) for k in kids]
        if ks != [('leaf', t + 1 + 2 * i) for i in range(len(ks))]:
            return ('bad set',)
        return ('set', t, t + 2 * len(ks) if ks else t + 1)
    if LEAF.get(node.token.type) is c and not kids:
        return ('leaf', t)
    return ('bad', c.__name__)


def samples():
    rng = random.Random(5)
    V = {TT.BOOL: 'TRUE', TT.INT: 1, TT.FLOAT: 1.5, TT.STRING: 's', TT.NULL: 'NULL', TT.OP: '=', TT.NOT_OP: 'NOT'}
    kinds = [t for t in TT if t not in (TT.START, TT.END)]

    def gen(r, d):
        if r == 'policy':
            return gen('term', d) + ([('OR',)] + gen('policy', d - 1) if rng.random() < .4 and d > 0 else [])
        if r == 'term':
            return gen('exp', d) + ([('AND',)] + gen('term', d - 1) if rng.random() < .4 and d > 0 else [])
        if r == 'exp':
            k = rng.randrange(6) if d > 0 else rng.randrange(2, 6)
            if k == 0:
                return [TT.NOT_OP] + ([TT.LPARN] + gen('policy', d - 1) + [TT.RPARN] if rng.random() < .6 else gen('bv', d))
            if k == 1:
                return [TT.LPARN] + gen('policy', d - 1) + [TT.RPARN]
            if k < 5:
                return gen('var', d) + [TT.OP] + gen('var', d)
            return gen('bv', d)
        if r == 'bv':
            return [rng.choice(list(ATTS) + [TT.BOOL])]
        if rng.random() < .3:
            n = rng.randrange(4)
            out = [TT.LSET]
            for i in range(n):
                out += ([TT.COMMA] if i else []) + [rng.choice(list(ATOMIC))]
            return out + [TT.RSET]
        return [rng.choice(list(ATTS) + list(ATOMIC))]
    out = []
    for _ in range(400):
        seq = gen('policy', 3)[:14]
        for _ in range(rng.choice([0, 0, 1, 2])):
            if seq:
                k = rng.randrange(len(seq))
                seq[k:k + 1] = rng.choice([[], [rng.choice(kinds)], [seq[k], rng.choice(kinds)]])
        toks = [Token(TT.START, 0)]
        for x in seq:
            if isinstance(x, tuple):
                toks.append(Token(TT.BOOL_OP, len(toks), x[0]))
            else:
                toks.append(Token(x, len(toks), rng.choice(['AND', 'OR']) if x is TT.BOOL_OP else V.get(x, 'x')))
        toks.append(Token(TT.END, len(toks)))
        out.append(toks)
    return out


class Proto:
    """How the parser keeps its position: one integer field and fields caching the current token."""

    def __init__(self):
        self.why = None
        try:
            toks = [Token(TT.START, 0), Token(TT.LPARN, 1), Token(TT.BOOL, 2, 'TRUE'), Token(TT.RPARN, 3), Token(TT.END, 4)]
            p = P.Parser(toks, 'x')
            before = dict(p.__dict__)
            p.parse()
            after = p.__dict__
            pos = [k for k in before if type(before[k]) is int and before[k] == 0 and after[k] == 5]
            self.tok = [k for k in before if before[k] is toks[0]]
            self.list = [k for k in before if isinstance(before[k], list) and len(before[k]) == 5]
            changed = [k for k in after if k not in before or (after[k] is not before[k] and after[k] != before[k])]
            if len(pos) != 1 or len(self.list) != 1 or set(changed) - set(pos) - set(self.tok):
                self.why = 'the parser does not keep its position in one field'
                return
            self.pos = pos[0]
        except Exception as e:
            self.why = 'the parser fails on ( TRUE ): %r' % e
            return
        self.rules = {}
        data = samples()
        for name, f in P.Parser.__dict__.items():
            if not isinstance(f, types.FunctionType) or name.startswith('__') or f.__code__.co_argcount != 1 or \
                    f.__code__.co_kwonlyargcount or f.__code__.co_flags & 0x0c:
                continue
            cands = set(RULES)
            good = 0
            for toks in data:
                ref = Ref(toks)
                index = {id(t): i for i, t in enumerate(toks)}
                for i in range(1, len(toks)):
                    got = self.run(f, toks, i, index)
                    keep = set()
                    for r in cands:
                        want = getattr(ref, r)(i)
                        if want == got:
                            keep.add(r)
                            good += want is not None
                    cands = keep
                    if not cands:
                        break
                if not cands:
                    break
            if cands and good > 20:
                self.rules[name] = sorted(cands, key=RANK.get)[0]

    def run(self, f, toks, i, index):
        try:
            p = P.Parser(toks, 'x')
            setattr(p, self.pos, i)
            for k in self.tok:
                setattr(p, k, toks[i])
            n = f(p)
            if not isinstance(n, A.ASTNode):
                return 'no node'
            return getattr(p, self.pos), concrete_tree(n, index)
        except E.ParserError:
            return None
        except Exception:
            return 'exception'


_proto = []


def proto():
    if not _proto:
        _proto.append(Proto())
    return _proto[0]


# ------------------------------------------------------------------------------------------------ symbolic side
class TreeNode(Sym):
    """A node returned by a rule of which only the contract is known."""

    def __init__(self, w, t):
        self.w, self.t = w, t

    def show(self):
        return str(self.t)[:60]

    def truth(self, interp):
        return True

    def is_instance(self, interp, cls):
        w, t = self.w, self.t
        if cls in (object, A.ASTNode):
            return True
        if not issubclass(cls, A.ASTNode):
            return False
        fs = []
        for k, c in ((Tree.is_Cmp, A.OpNode), (Tree.is_Bin, A.BoolOpNode), (Tree.is_Neg, A.NotNode), (Tree.is_SetT, A.SetNode)):
            if issubclass(c, cls):
                fs.append(k(t))
        for ty, c in LEAF.items():
            if issubclass(c, cls):
                fs.append(z3.And(Tree.is_Leaf(t), w.ty(Tree.leaf(t)) == ty.value))
        return mk_bool(z3.Or(fs)) if fs else False

    def attr(self, interp, name):
        w, t = self.w, self.t
        if name == 'token':
            return w.T.at(z3.If(Tree.is_Leaf(t), Tree.leaf(t), z3.If(Tree.is_Cmp(t), Tree.cop(t), z3.If(
                Tree.is_Bin(t), Tree.bop(t), z3.If(Tree.is_Neg(t), Tree.ntok(t), Tree.sopen(t))))))
        if name == '_node_list':
            b = interp.ctx.branch
            if b(Tree.is_Cmp(t)):
                return [TreeNode(w, Tree.cl(t)), TreeNode(w, Tree.cr(t))]
            if b(Tree.is_Bin(t)):
                return [TreeNode(w, Tree.bl(t)), TreeNode(w, Tree.br(t))]
            if b(Tree.is_Neg(t)):
                return [TreeNode(w, Tree.nsub(t))]
            if b(Tree.is_Leaf(t)):
                return []
            raise Unsupported('members of a parsed set')
        m = A.ASTNode.__dict__.get(name)
        if isinstance(m, types.FunctionType):
            return BoundMethod(m, self)
        raise Unsupported('attribute %s of a parsed node' % name)


class Members(SSeq):
    """Atomic constants read by a loop over a set: element k is the leaf of token base + 2k."""

    def __init__(self, w, n, base):
        self.base = base
        SSeq.__init__(self, n, lambda k: TreeNode(w, Tree.Leaf(base + 2 * k)), list, 'members')


class World:
    def __init__(self, h, rule=None):
        self.h = h
        self.rule = rule
        c = h.ctx
        self.n = z3.Int(c.name('tokens'))
        self.tyf = z3.Function(c.name('ty'), I, I)
        self.val = z3.Function(c.name('val'), I, S)
        self.posf = z3.Function(c.name('tpos'), I, I)
        self.L = z3.Int(c.name('textlen'))
        c.assume(z3.And(self.n >= 2, self.L >= 0, self.tyf(0) == TT.START.value, self.tyf(self.n - 1) == TT.END.value))
        self.T = SSeq(self.n, self.token, list, 'tokens')
        names = {}
        for r in ('set', 'exp', 'term', 'policy'):
            names[r] = (z3.Function(r + '.ok', I, B), z3.Function(r + '.end', I, I), z3.Function(r + '.tree', I, Tree))
        self.f = names
        self.loop = {k: (z3.Function(k + '.ok', I, Tree, B), z3.Function(k + '.end', I, Tree, I),
                         z3.Function(k + '.tree', I, Tree, Tree)) for k in ('term*', 'policy*')}
        self.sf_ok = z3.Function('set*.ok', I, B)
        self.sf_close = z3.Function('set*.close', I, I)
        self.start = None

    def ty(self, i):
        return self.tyf(i)

    def facts(self, i):
        t, v = self.tyf(i), self.val(i)
        return z3.And(z3.Implies(z3.And(0 < i, i < self.n - 1), z3.And(t != TT.START.value, t != TT.END.value)),
                      t >= 1, t <= len(TT), 0 <= self.posf(i), self.posf(i) <= self.L,
                      z3.Implies(t == TT.BOOL_OP.value, z3.Or(v == z3.StringVal('AND'), v == z3.StringVal('OR'))),
                      z3.Implies(t == TT.BOOL.value, z3.Or([v == z3.StringVal(x) for x in ('TRUE', 'FALSE', 'UNDEF')])))

    def token(self, i):
        self.h.ctx.assume(self.facts(i))
        t = object.__new__(Token)
        t.type = SEnum(TT, self.tyf(i))
        t.value = mk_str([ZS(self.val(i))])
        t.pos = SInt(self.posf(i))
        t.__dict__['_pyvc_index'] = i
        return t

    # ---- specification functions
    def among(self, i, types_):
        return z3.Or([self.tyf(i) == t.value for t in types_])

    def is_(self, i, t):
        return self.tyf(i) == t.value

    def R(self, r, p):
        """(ok, end, tree) of nonterminal r at position p"""
        if r == 'att':
            return self.among(p, ATTS), p + 1, Tree.Leaf(p)
        if r == 'atomic':
            return self.among(p, ATOMIC), p + 1, Tree.Leaf(p)
        if r == 'boolvar':
            return self.among(p, list(ATTS) + [TT.BOOL]), p + 1, Tree.Leaf(p)
        if r in ('const', 'var'):
            so, se, st = self.R('set', p)
            isset = self.is_(p, TT.LSET)
            leaf = self.among(p, list(ATOMIC) + (list(ATTS) if r == 'var' else []))
            return z3.If(isset, so, leaf), z3.If(isset, se, p + 1), z3.If(isset, st, Tree.Leaf(p))
        ok, end, tree = self.f[r]
        return ok(p), end(p), tree(p)

    def define(self, r, p):
        """Instances of the defining equations for position p."""
        c = self.h.ctx
        p = z3.simplify(p)
        ok, end, tree = self.R(r, p)
        if r == 'set':
            one = self.is_(p + 1, TT.RSET)
            close = z3.If(one, p + 1, self.sf_close(p + 2))
            c.assume(z3.And(ok == z3.And(self.is_(p, TT.LSET), z3.Or(one, z3.And(self.among(p + 1, ATOMIC), self.sf_ok(p + 2)))),
                            end == close + 1, tree == Tree.SetT(p, close)))
            self.define_sf(p + 2)
        elif r in ('const', 'var'):
            self.define('set', p)
        elif r == 'exp':
            po, pe, pt = self.R('policy', p + 1)
            qo, qe, qt = self.R('policy', p + 2)
            bo, be, bt = self.R('boolvar', p + 1)
            vo, ve, vt = self.R('var', p)
            wo, we, wt = self.R('var', ve + 1)
            so, se, st = self.R('boolvar', p)
            par = z3.And(po, self.is_(pe, TT.RPARN))
            npar = z3.And(qo, self.is_(qe, TT.RPARN))
            isnot, islp, np = self.is_(p, TT.NOT_OP), self.is_(p, TT.LPARN), self.is_(p + 1, TT.LPARN)
            cmp_ = z3.And(vo, self.is_(ve, TT.OP))

            def pick(a, b, c_, d, e):
                return z3.If(isnot, z3.If(np, a, b), z3.If(islp, c_, z3.If(cmp_, d, e)))
            c.assume(z3.And(ok == pick(npar, bo, par, wo, so), end == pick(qe + 1, be, pe + 1, we, se),
                            tree == pick(Tree.Neg(p, qt), Tree.Neg(p, bt), pt, Tree.Cmp(ve, vt, wt), st)))
            self.define('set', p)
            self.define('set', ve + 1)
        elif r in ('term', 'policy'):
            sub, loop = ('exp', 'term*') if r == 'term' else ('term', 'policy*')
            so, se, st = self.R(sub, p)
            lo, le, lt = self.loop[loop]
            c.assume(z3.And(ok == z3.And(so, lo(se, st)), end == le(se, st), tree == lt(se, st)))
            self.define_loop(loop, se, st)
            self.define(sub, p)

    def define_loop(self, loop, p, t):
        sub, word = ('exp', 'AND') if loop == 'term*' else ('term', 'OR')
        lo, le, lt = self.loop[loop]
        so, se, st = self.R(sub, p + 1)
        more = z3.And(self.is_(p, TT.BOOL_OP), self.val(p) == z3.StringVal(word))
        nt = Tree.Bin(p, t, st)
        self.h.ctx.assume(z3.And(lo(p, t) == z3.If(more, z3.And(so, lo(se, nt)), z3.BoolVal(True)),
                                 le(p, t) == z3.If(more, le(se, nt), p), lt(p, t) == z3.If(more, lt(se, nt), t)))

    def define_sf(self, q):
        c = self.h.ctx
        done, more = self.is_(q, TT.RSET), z3.And(self.is_(q, TT.COMMA), self.among(q + 1, ATOMIC))
        c.assume(z3.And(self.sf_ok(q) == z3.Or(done, z3.And(more, self.sf_ok(q + 2))),
                        self.sf_close(q) == z3.If(done, q, self.sf_close(q + 2))))

    # ---- program state
    def parser(self):
        h = self.h
        self.p = h.interp.call(P.Parser, [[Seg(self.T)], POLICY])
        return self.p

    def set_cursor(self, t):
        pr = proto()
        t = z3.simplify(t)
        self.h.ctx.set_attr(self.p, pr.pos, mk_int(t))
        for k in pr.tok:
            self.h.ctx.set_attr(self.p, k, self.T.at(t))

    def cursor(self):
        pr = proto()
        v = self.h.interp.load_attr(self.p, pr.pos)
        t = int_term(v)
        for k in pr.tok:
            x = self.h.interp.load_attr(self.p, k)
            if isinstance(x, Token) and '_pyvc_index' in x.__dict__:
                self.h.check('the current token is the one at the current position', x.__dict__['_pyvc_index'] == t)
            elif x is None:
                self.h.check('there is no current token only after the last one', t >= self.n)
            else:
                raise Unsupported('current token')
        return t

    def unchanged(self):
        """The token list and everything else the parser holds are as before."""
        pr = proto()
        l = self.p.__dict__.get(pr.list[0])
        return isinstance(l, list) and len(l) == 1 and type(l[0]) is Seg and l[0].seq is self.T

    # ---- contracts at calls
    def hook(self, interp, f, args, kwargs):
        pr = proto()
        name = f.__name__
        r = pr.rules.get(name)
        if r is None or P.Parser.__dict__.get(name) is not f or kwargs or len(args) != 1 or args[0] is not self.p:
            return NOTHANDLED
        if f is self.target:
            if not interp.stack:
                return NOTHANDLED
            if len(interp.stack) == 1 and False:
                return NOTHANDLED
        t = self.cursor()
        if self.start is not None and not self.h.ctx.entails(t > self.start):
            if not (self.h.ctx.entails(t == self.start) and RANK[r] < RANK.get(self.rule, 99)):
                return NOTHANDLED        # no progress: execute the body instead
        self.h.check('a rule is applied inside the token sequence', z3.And(t >= 1, t <= self.n - 1))
        return self.apply(r, t)

    def apply(self, r, t):
        h = self.h
        ok, end, tree = self.R(r, t)
        if not h.ctx.branch(ok):
            q = h.int('errpos', 0)
            h.ctx.assume(q.t <= self.L)
            raise mark(E.ParserError('syntax', POLICY, q))
        h.ctx.assume(z3.And(t < end, end <= self.n - 1))
        self.set_cursor(end)
        return TreeNode(self, z3.simplify(tree))

    # ---- loops
    def loop_hook(self, interp, node, fr, seq):
        if seq is not None:
            return NOTHANDLED
        h, c = self.h, self.h.ctx
        p0 = self.cursor()
        stored = {x.id for s in node.body for x in pyast.walk(s) if isinstance(x, pyast.Name) and isinstance(x.ctx, pyast.Store)}
        loaded = {x.id for s in node.body for x in pyast.walk(s) if isinstance(x, pyast.Name)}
        trees = [k for k in stored if isinstance(fr.locals.get(k), (TreeNode, A.ASTNode))]
        lists = [k for k in loaded if isinstance(fr.locals.get(k), list) and k not in stored]
        if len(lists) == 1 and all(isinstance(x, (TreeNode, A.ASTNode)) for x in fr.locals[lists[0]]):
            cands = ['set1', 'set0']
            t0 = None
            trees = []
        elif len(trees) == 1 and not lists:
            cands = ['policy*', 'term*'] if self.rule == 'policy' else ['term*', 'policy*']
            t0 = self.tree_of(fr.locals[trees[0]])
        else:
            raise Unsupported('loop in %s' % fr.name)

        def once(cand, check):
            """Havoc, assume the invariant, run one iteration.  True: the loop was left normally."""
            p1 = z3.Int(c.name('at'))
            c.assume(z3.And(p0 <= p1, p1 <= self.n - 1, 1 <= p1))
            lst = old = None
            if cand in self.loop:
                t1 = z3.Const(c.name('sofar'), Tree)
                L = self.loop[cand]
                c.assume(z3.And([f(p1, t1) == f(p0, t0) for f in L]))
                self.define_loop(cand, p1, t1)
                self.define_loop(cand, p0, t0)
                h.interp._set_local(fr, trees[0], TreeNode(self, t1))
            else:
                d = int(cand[-1])
                j = z3.Int(c.name('read'))
                c.assume(z3.And(j >= 0, p1 == p0 + 2 * j))

                def rest(p):
                    if d:
                        return self.sf_ok(p), self.sf_close(p)
                    return z3.And(self.among(p, ATOMIC), self.sf_ok(p + 1)), self.sf_close(p + 1)
                c.assume(z3.And(rest(p1)[0] == rest(p0)[0], z3.Implies(rest(p0)[0], rest(p1)[1] == rest(p0)[1])))
                self.define_sf(p1 + 1 - d)
                lst = fr.locals[lists[0]]
                c.touch(lst)
                lst.append(Seg(Members(self, j, p0 + d)))
                old = list(lst)
            for k in stored:
                if k not in trees and k in fr.locals:
                    h.interp._set_local(fr, k, Poison('loop'))
            c.set_attr(A.ASTNode, '_last_id', h.int('id', 0))
            self.set_cursor(p1)
            if not interp.truth(interp.ev(node.test, fr)):
                interp.block(node.orelse, fr)
                return True
            try:
                interp.block(node.body, fr)
            except BreakSig:
                return True
            except ContinueSig:
                pass
            p2 = self.cursor()
            check('loop: the position stays inside the token sequence', z3.And(p2 > p1, p2 <= self.n - 1))
            if cand in self.loop:
                v = fr.locals.get(trees[0])
                t2 = self.tree_of(v) if isinstance(v, (TreeNode, A.ASTNode)) else None
                check('loop: what remains to be parsed gives the same tree',
                      z3.And([f(p2, t2) == f(p0, t0) for f in self.loop[cand]]) if t2 is not None else z3.BoolVal(False))
            else:
                check('loop: one member is read per iteration', z3.BoolVal(
                    len(lst) == len(old) + 1 and all(a is b for a, b in zip(lst, old))))
                t = self.tree_of(lst[-1])
                check('loop: one member is read per iteration', z3.And(p2 == p1 + 2, t == Tree.Leaf(p1 + d)))
                check('loop: the rest of the set stays the same', z3.And(
                    rest(p2)[0] == rest(p0)[0], z3.Implies(rest(p0)[0], rest(p2)[1] == rest(p0)[1])))
            raise PathKill()

        def trial(cand):
            good = [True]

            def silent(name, f):
                if c._check(z3.Not(f)) != z3.unsat:
                    good[0] = False

            def run():
                depth = len(interp.stack)
                keep = h.check
                h.check = lambda name, cond, detail=None: silent(name, cond if z3.is_expr(cond) else z3.BoolVal(bool(cond)))
                try:
                    once(cand, silent)
                except (ReturnSig, BreakSig):
                    pass
                except Signal:
                    raise
                except BaseException as e:
                    if not marked(e):
                        raise
                finally:
                    h.check = keep
                    del interp.stack[depth:]
            c.explore(run)
            return good[0]
        pick = next((x for x in cands if trial(x)), cands[0])
        once(pick, lambda name, f: h.check(name, f))
        return None

    # ---- trees of program nodes
    def index(self, tok):
        if not isinstance(tok, Token) or '_pyvc_index' not in tok.__dict__:
            raise Unsupported('token of a node is not one of the sequence')
        return tok.__dict__['_pyvc_index']

    def tree_of(self, node):
        h = self.h
        if isinstance(node, TreeNode):
            return node.t
        if not isinstance(node, A.ASTNode):
            h.check('a rule returns a node', False, repr(node))
        cls = type(node)
        i = self.index(h.interp.load_attr(node, 'token'))
        kids = node.__dict__.get('_node_list')
        if not isinstance(kids, list):
            raise Unsupported('children of a node')
        if cls is A.OpNode or cls is A.BoolOpNode:
            h.check('a %s has two operands' % cls.__name__, len(kids) == 2)
            f = Tree.Cmp if cls is A.OpNode else Tree.Bin
            return f(i, self.tree_of(kids[0]), self.tree_of(kids[1]))
        if cls is A.NotNode:
            h.check('a NotNode has one operand', len(kids) == 1)
            return Tree.Neg(i, self.tree_of(kids[0]))
        if cls is A.SetNode:
            off = z3.IntVal(0)
            for x in kids:
                if type(x) is Seg:
                    if not isinstance(x.seq, Members):
                        raise Unsupported('members of a set')
                    h.check('the members of a set are its constants in order', z3.Or(x.seq.n == 0, x.seq.base == i + 1 + 2 * off))
                    off = off + x.seq.n
                else:
                    t = self.tree_of(x)
                    h.check('the members of a set are its constants in order', t == Tree.Leaf(i + 1 + 2 * off))
                    off = off + 1
            return Tree.SetT(i, z3.If(off == 0, i + 1, i + 2 * off))
        ts = [t for t, k in LEAF.items() if k is cls]
        h.check('a node has the kind of its token', z3.Or([self.tyf(i) == t.value for t in ts]) if ts else False, cls.__name__)
        h.check('a constant or attribute has no operands', len(kids) == 0)
        return Tree.Leaf(i)


from engine.interp import ReturnSig, BreakSig, ContinueSig  # noqa


def check_error(h, w, e, want):
    if want != 'C08':
        return
    h.check('malformed token sequences fail with a syntax error', isinstance(e, E.ParserError), type(e).__name__)
    h.check('the error carries the policy text', e.__dict__.get('policy_text') is POLICY or e.__dict__.get('policy_text') == POLICY)
    pos = e.__dict__.get('pos')
    if not isinstance(pos, (int, SInt)):
        h.check('the error has a position', False)
    h.check('the position of the error lies in the text', z3.And(int_term(pos) >= 0, int_term(pos) <= w.L))


def rule_unit(h, name, r, want):
    w = World(h, r)
    w.parser()
    p = z3.Int(h.ctx.name('p'))
    h.ctx.assume(z3.And(1 <= p, p <= w.n - 1))
    w.target = P.Parser.__dict__[name]
    w.start = p
    w.define(r, p)
    w.set_cursor(p)
    h.interp.call_hook = w.hook
    h.interp.loop_hook = w.loop_hook
    try:
        o = h.call(lambda_run(w), w.p)
    finally:
        h.interp.call_hook = h.interp.loop_hook = None
    ok, end, tree = w.R(r, p)
    h.cover('%s %s' % (name, o.kind))
    if o.raised:
        if want == 'C06':
            h.check('%s: every phrase of this kind is accepted' % r, z3.Not(ok), 'raised %s' % type(o.value).__name__)
        check_error(h, w, o.value, want)
        return
    if want == 'C08':
        return
    h.check('%s: only phrases of this kind are accepted' % r, ok)
    h.check('%s: the position afterwards is the end of the phrase' % r, w.cursor() == end)
    h.check('%s: the phrase lies inside the token sequence' % r, z3.And(end > p, end <= w.n - 1))
    h.check('%s: the tree is that of the phrase' % r, w.tree_of(o.value) == tree)
    h.check('%s: the token sequence is unchanged' % r, w.unchanged())


def lambda_run(w):
    return ModelFn(lambda interp, args, kwargs: interp.run_repo(w.target, args, kwargs))


def parse_unit(h, want, how):
    w = World(h)
    w.target = None
    pr = proto()
    if how == 'tokens':
        w.parser()
    else:
        lx = object.__new__(Lexer)
        lx.state = Poison('lexer')
        done = []

        def hook(interp, f, args, kwargs):
            if args and args[0] is lx and f.__name__ in ('tokenize', 'toke_list', 'policy'):
                if f.__name__ == 'tokenize':
                    done.append(1)
                    return None
                if f.__name__ == 'policy':
                    return POLICY
                if not done:
                    raise Unsupported('tokens read before tokenizing')
                return [Seg(w.T)]
            return NOTHANDLED
        h.interp.call_hook = hook
        w.p = h.interp.call(P.Parser, [lx])
        h.interp.call_hook = None
        if want == 'C06':
            h.check('the policy text is that of the lexer', h.call(h.get(w.p, 'policy')).value == POLICY)
    for k in [pr.pos] + pr.tok:
        h.ctx.set_attr(w.p, k, Poison('state of an earlier parse'))
    w.define('policy', z3.IntVal(1))
    h.interp.call_hook = w.hook
    h.interp.loop_hook = w.loop_hook
    o = h.method(w.p, 'parse')
    h.interp.call_hook = h.interp.loop_hook = None
    ok, end, tree = w.R('policy', z3.IntVal(1))
    accept = z3.And(ok, w.is_(end, TT.END))
    h.cover('parse %s' % o.kind)
    if o.raised:
        if want == 'C06':
            h.check('every policy is accepted', z3.Not(accept), 'raised %s' % type(o.value).__name__)
        check_error(h, w, o.value, want)
        return
    if want == 'C08':
        return
    h.check('only policies are accepted', accept)
    h.check('the tree is that of the policy', w.tree_of(o.value) == tree)
    h.check('the token sequence is unchanged', w.unchanged())


def not_reached(h, why):
    h.unsupported = why


def install():
    pr = proto()
    for want in ('C06', 'C08'):
        if pr.why:
            add_unit(want, 'parser', lambda h: not_reached(h, pr.why))
            continue
        for name, r in sorted(pr.rules.items(), key=lambda x: (RANK[x[1]], x[0])):
            def mk(name=name, r=r, want=want):
                return lambda h: h.run(lambda: rule_unit(h, name, r, want))
            add_unit(want, '%s implements %s' % (name, r), mk())
        for how in ('tokens', 'lexer'):
            def mk2(how=how, want=want):
                return lambda h: h.run(lambda: parse_unit(h, want, how))
            add_unit(want, 'parse from %s' % how, mk2())
        if 'policy' not in pr.rules.values():
            add_unit(want, 'rule for policies', lambda h: not_reached(h, 'no method of Parser implements the nonterminal policy'))


install()
