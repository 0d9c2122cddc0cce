"""C09: contract of TypeChecker.check().

The checker walks the policy tree and threads a state (the inferred types, the reports so far) through it.  The
contract of the walk is a state transformer; it is proved by structural induction: check() is executed on
`<any policy> AND <node>` for a node of every kind, where the walk over the first operand is replaced by the
induction hypothesis (it leaves an arbitrary table of inferred types and an arbitrary list of reports), so that the
node is checked in every state earlier comparisons can leave behind.
"""
import z3
from .common import *
from . import evaluation as EV
from .evaluation import ATT, POLICY, OPS, VAL, val_node, set_node, att_node

import hgpl.ast as A
import hgpl.symbols as SY
import hgpl.errors as E
import hgpl.semantics as TC
from hgpl.lexing import Token, TokenType

ST = SY.SymbolType
RES = TC.TypeCheckerResult
PREFIXES = [p for p, t in ATT.values()]
KNOWN = [ST.INT, ST.FLOAT, ST.STRING, ST.SET]
CONST = {'int': ST.INT, 'float': ST.FLOAT, 'str': ST.STRING, 'set': ST.SET, 'null': ST.UNKNOWN}
UNK = z3.IntVal(ST.UNKNOWN.value)
ERR, WARN = E.ErrorType.ERROR, E.ErrorType.WARN


class State:
    """Inferred types: z3 functions of the full attribute name (lower case)."""

    def __init__(self, present, typ):
        self.present, self.typ = present, typ

    def define(self, key):
        p, t = self.present, self.typ
        return State(lambda k: z3.Or(p(k), k == key), lambda k: z3.If(z3.And(k == key, z3.Not(p(key))), UNK, t(k)))

    def give(self, key, typ):
        t = self.typ
        return State(self.present, lambda k: z3.If(k == key, typ, t(k)))


EMPTY = State(lambda k: z3.BoolVal(False), lambda k: UNK)


def key_of(prefix, name):
    return str_z3(mk_str((prefix,) + tuple(str_pieces(models.lower(name)))))


def one_kind(a, b):
    num = lambda t: z3.Or(t == ST.INT.value, t == ST.FLOAT.value)
    return z3.Or(a == b, z3.And(num(a), num(b)))


def expected(op, l, r, st):
    """(report kind term 0 none / 1 warning / 2 error, state after the comparison).  l, r: (kind, key or None)"""
    for k, key in (l, r):
        if k == 'att':
            st = st.define(key)
    none, warn, err = z3.IntVal(0), z3.IntVal(1), z3.IntVal(2)
    lk, rk = l[0], r[0]
    if op == 'IN':
        return (err if lk == 'set' or rk in ('int', 'float', 'str', 'null') else none), st
    if op == 'SUBSET':
        return (none if {lk, rk} <= {'set', 'att'} else err), st
    if op in ('<', '>', '<=', '>='):
        if {lk, rk} & {'str', 'null'}:
            return err, st
        if 'att' not in (lk, rk):
            return (err if 'set' in (lk, rk) else none), st
    elif 'att' not in (lk, rk):
        cls = lambda k: 'num' if k in ('int', 'float') else k
        return (none if cls(lk) == cls(rk) else err), st

    def typ(x):
        return st.typ(x[1]) if x[0] == 'att' else z3.IntVal(CONST[x[0]].value)
    tl, tr = typ(l), typ(r)
    attl, attr = lk == 'att', rk == 'att'
    if attl and attr:
        clash = z3.And(tl != UNK, tr != UNK, z3.Not(one_kind(tl, tr)))
    elif attl:
        clash = z3.And(tl != UNK, z3.Not(one_kind(tl, tr)))
    else:
        clash = z3.And(tr != UNK, z3.Not(one_kind(tl, tr)))
    out = st
    if attl:
        out = out.give(l[1], z3.If(tl == UNK, tr, tl))
    if attr:
        # user.a = user.a: same key, same type
        out = out.give(r[1], z3.If(tr == UNK, tl, tr))
    return z3.If(clash, warn, none), out


_proto = {}


def protocol():
    """Which fields hold the reports, observed on a run."""
    if not _proto:
        bad = A.OpNode(Token(TokenType.OP, 0, '<'), A.StringValNode(Token(TokenType.STRING, 0, 'a')),
                       A.IntValNode(Token(TokenType.INT, 0, 1)))

        class Obs(TC.TypeChecker):
            def __setattr__(self, k, v):
                if seen is not None:
                    seen.add(k)
                object.__setattr__(self, k, v)
        seen = None
        c = Obs(bad, 'p')
        seen = set()
        c.check()
        lists = [k for k, v in c.__dict__.items() if isinstance(v, list) and len(v) == 1]
        _proto['issues'] = lists[0] if len(lists) == 1 else None
        _proto['written'] = set(seen)
    return _proto


class World:
    def __init__(self, h):
        self.h = h
        self.state = EMPTY
        self.reports = []            # expected: ('seg', n, sev) | ('one', kind term, pos term)
        self.kids = {}

    # ---- program state
    def checker(self, root):
        h = self.h
        c = h.interp.call(TC.TypeChecker, [root, POLICY])
        for f in protocol()['written']:
            if f in c.__dict__:
                c.__dict__[f] = Poison('state of an earlier check')
        self.c = c
        return c

    def table(self):
        o = self.h.method(self.c, 'get_symbol_table')
        if o.raised or type(o.value) is not SY.SymbolTable:
            raise Unsupported('symbol table of the checker')
        return o.value

    def issue_list(self):
        a = protocol()['issues']
        l = self.h.interp.load_attr(self.c, a) if a else None
        if not isinstance(l, list):
            raise Unsupported('list of reports')
        return l

    # ---- comparing program state with the expected one
    def check_state(self, what):
        h = self.h
        t = self.table()
        p = h.choose(PREFIXES, 'namespace')
        q = h.str('q')
        name = mk_str((p,) + tuple(str_pieces(q)))
        key = key_of(p, q)
        o = h.method(t, 'lookup', name)
        h.check('%s: the inventory can be looked up' % what, not o.raised)
        if o.value is None:
            h.check('%s: the inventory holds every attribute mentioned' % what, z3.Not(self.state.present(key)))
        else:
            h.check('%s: the inventory holds only attributes mentioned' % what, self.state.present(key))
            ty = h.get(o.value, 'type')
            h.check('%s: an attribute has the type earlier comparisons gave it' % what,
                    enum_term(ty) == self.state.typ(key) if isinstance(ty, (ST, SEnum)) else False)

    def check_reports(self, what):
        h = self.h
        l = list(self.issue_list())
        for r in self.reports:
            if r[0] == 'seg':
                h.check('%s: earlier reports are kept' % what, bool(l) and type(l[0]) is Seg and l[0].seq is r[1])
                l.pop(0)
                continue
            head = l[0] if l and type(l[0]) is not Seg else None
            if head is None:
                h.check('%s: an ill-typed comparison is reported' % what, r[1] == 0)
                continue
            l.pop(0)
            iswarn = isinstance(head, E.TypeCheckerWarning)
            h.check('%s: what is reported is a type checker error or warning' % what, isinstance(head, E.TypeCheckerError))
            h.check('%s: report only for an ill-typed comparison, with its severity' % what, r[1] == (1 if iswarn else 2))
            h.check('%s: severity of the report' % what, head.__dict__.get('type') == (WARN if iswarn else ERR))
            h.check('%s: the report names the comparison' % what, h.eq(head.__dict__.get('pos'), r[2]))
            h.check('%s: the report carries the policy text' % what, head.__dict__.get('policy_text') == POLICY)
        h.check('%s: nothing else is reported' % what, not l)

    # ---- induction hypothesis
    def child(self, cls=None):
        h = self.h
        cls = cls or A.OpNode
        n = object.__new__(cls)
        n.token = Token(EV.CTOK[cls], h.int('pos', 0), Poison('child token'))
        n.id = h.int('id')
        n._node_list = Poison('children of a child')
        n.result = None
        self.kids[id(n)] = n
        return n

    def hook(self, interp, f, args, kwargs):
        hit = [a for a in list(args) + list(kwargs.values()) if id(a) in self.kids]
        if hit and any(fr.func is f for fr in interp.stack):
            return self.apply(hit[0])
        return NOTHANDLED

    def apply(self, node):
        h = self.h
        if node is not self.order[0]:
            h.check('the parts of a policy are checked once each, from left to right', False)
        self.order.pop(0)
        if h.choose([1, 0], 'obligation before the part'):
            self.check_state('before a part')
            self.check_reports('before a part')
            raise PathKill()
        tag = h.ctx.name('t')
        present = z3.Function('present.' + tag, S, B)
        typ = z3.Function('type.' + tag, S, I)
        k = z3.String(h.ctx.name('k'))
        self.h.ctx.assume(z3.ForAll([k], z3.Or([typ(k) == m.value for m in KNOWN + [ST.UNKNOWN]]),
                                    patterns=[typ(k)]))

        def make(key):
            ps = str_pieces(key)
            pre = ps[0] if isinstance(ps[0], str) else ''
            p = next((p for p in PREFIXES if pre.startswith(p)), None)
            if p is None:
                return ABSENT
            t = str_z3(key)
            if not h.ctx.branch(present(t)):
                return ABSENT
            h.ctx.assume(z3.Or([typ(t) == m.value for m in KNOWN + [ST.UNKNOWN]]))
            name = mk_str((pre[len(p):],) + tuple(ps[1:]))
            sym = h.interp.call(SY.Symbol, [name, EV.PREFIX[p], None, None])
            h.ctx.set_attr(sym, 'type', h.interp.mk_enum(ST, typ(t)))
            return sym
        tab = self.table()
        dicts = [a for a, v in tab.__dict__.items() if isinstance(v, dict)]
        if len(dicts) != 1:
            raise Unsupported('representation of SymbolTable')
        m = SDict(factory=make, label='inferred', may_be_absent=False)
        h.ctx.set_attr(tab, dicts[0], {OVERLAY: m})
        self.state = State(present, typ)
        n = z3.Int(h.ctx.name('reports'))
        h.ctx.assume(n >= 0)
        sev = z3.Function('sev.' + tag, I, I)

        def gen(i):
            w = h.ctx.branch(sev(i) == WARN.value)
            if not w:
                h.ctx.assume(sev(i) == ERR.value)
            e = (E.TypeCheckerWarning if w else E.TypeCheckerError)('m', POLICY, 0)
            e.__dict__['_pyvc_index'] = i
            e.__dict__['_pyvc_of'] = seq
            return e
        seq = SSeq(n, gen, list, 'reports')
        seq.sev = sev
        lst = self.issue_list()
        h.ctx.touch(lst)
        lst.append(Seg(seq))
        i = z3.Int(h.ctx.name('i'))
        h.ctx.assume(z3.ForAll([i], z3.Or(sev(i) == WARN.value, sev(i) == ERR.value), patterns=[sev(i)]))
        self.reports.append(('seg', seq))
        return None

    # ---- running
    def run(self, root, order, after=None, level=True):
        h = self.h
        c = self.checker(root)
        self.order = list(order)
        h.interp.call_hook = self.hook
        lev = E.ErrorType.CRIT
        self.full = level
        args = []
        if level and h.choose([0, 1], 'threshold given'):
            lev = h.enum(E.ErrorType, 'threshold')
            args = [lev]
        o = h.method(c, 'check', *args)
        h.interp.call_hook = None
        h.check('every part of the policy is checked', not self.order)
        if after:
            after()
        return c, o, lev

    def finish(self, c, o, lev):
        """State, reports, verdict and threshold after check()."""
        h = self.h
        aspect = h.choose(['state', 'rest'], 'aspect')
        if aspect == 'state':
            self.check_state('after checking')
            return
        self.check_reports('after checking')
        if not self.full:
            return
        lt = enum_term(lev)
        # first report that reaches the threshold
        before = []
        one = None
        for x in self.issue_list():
            if type(x) is Seg:
                i = z3.Int(h.ctx.name('i'))
                before.append((x.seq, z3.Exists([i], z3.And(0 <= i, i < x.seq.n, x.seq.sev(i) >= lt))))
            else:
                before.append((x, enum_term(x.type) >= lt))
        anyhit = z3.Or([b for _, b in before]) if before else z3.BoolVal(False)
        if o.raised:
            e = o.value
            h.check('checking raises only a report', isinstance(e, E.TypeCheckerError))
            src = e.__dict__.get('_pyvc_of', e)
            pos = [n for n, (x, _) in enumerate(before) if x is src]
            h.check('checking raises only a report of this policy', len(pos) == 1)
            for x, b in before[:pos[0]]:
                h.check('checking raises the first report that reaches the threshold', z3.Not(b))
            if src is not e:
                i = z3.Int(h.ctx.name('i'))
                k = e.__dict__['_pyvc_index']
                h.check('checking raises the first report that reaches the threshold',
                        z3.And(src.sev(k) >= lt, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), src.sev(i) < lt))))
            else:
                h.check('the report raised reaches the threshold', enum_term(e.type) >= lt)
        else:
            h.check('a report that reaches the threshold is raised', z3.Not(anyhit))
            h.check('check() returns the reports', isinstance(o.value, list) and same_items(o.value, self.issue_list()))
        sev = []
        for x in self.issue_list():
            if type(x) is Seg:
                i = z3.Int(h.ctx.name('i'))
                sev.append((z3.Exists([i], z3.And(0 <= i, i < x.seq.n, x.seq.sev(i) == ERR.value)), x.seq.n > 0))
            else:
                sev.append((z3.BoolVal(enum_of(x) == ERR), z3.BoolVal(True)))
        anyerr = z3.Or([a for a, _ in sev]) if sev else z3.BoolVal(False)
        anyone = z3.Or([a for _, a in sev]) if sev else z3.BoolVal(False)
        g = h.method(c, 'get_result')
        h.check('the verdict is available', not g.raised and isinstance(g.value, RES))
        want = {RES.ERROR: anyerr, RES.WARN: z3.And(anyone, z3.Not(anyerr)), RES.PASS: z3.Not(anyone)}
        h.check('the verdict is the worst report', want.get(g.value, z3.BoolVal(False)), 'verdict %r' % g.value)
        gi = h.method(c, 'get_issues')
        h.check('get_issues gives the reports', not gi.raised and same_items(gi.value, self.issue_list()))


def enum_of(x):
    return x.__dict__.get('type')


def same_items(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y or (type(x) is Seg and type(y) is Seg and x.seq is y.seq)
                                    for x, y in zip(a, b))


def operand(h, kind, cls):
    if kind == 'set':
        return set_node(h)[0], ('set', None)
    if kind == 'att':
        n, p, name = att_node(h, cls)
        return n, ('att', key_of(p, name))
    return val_node(h, kind)[0], (kind, None)


def comparison(h, op, lk, rk, first, lcls=A.UsrAttNode, rcls=A.UsrAttNode, full=True):
    w = World(h)
    ln, l = operand(h, lk, lcls)
    rn, r = operand(h, rk, rcls)
    pos = h.int('oppos', 0)
    node = h.interp.call(A.OpNode, [Token(TokenType.OP, pos, op), ln, rn])
    if first:
        c1 = w.child()
        root = h.interp.call(A.BoolOpNode, [Token(TokenType.BOOL_OP, 0, 'AND'), c1, node])
        order = [c1]
    else:
        root, order = node, []

    def after():
        rep, w.state = expected(op, l, r, w.state)
        w.reports.append(('one', rep, pos))
    c, o, lev = w.run(root, order, after, level=full)
    h.cover('%s %s %s' % (lk, op, rk))
    w.finish(c, o, lev)


KINDS = ['int', 'float', 'str', 'null', 'set', 'att']
FULL = (('=', 'att', 'int'), ('<', 'str', 'int'))
for _op in OPS:
    for _l in KINDS:
        def _mk(op, l, rs, first):
            def f(h):
                def body():
                    r = rs[0] if len(rs) == 1 else h.choose(rs, 'right')
                    comparison(h, op, l, r, first, full=(op, l, r) in FULL)
                h.run(body)
            return f
        if _l == 'att':
            for _r in KINDS:
                add_unit('C09', 'later comparison att %s %s' % (_op, _r), _mk(_op, _l, [_r], True))
        else:
            add_unit('C09', 'later comparison %s %s _' % (_l, _op), _mk(_op, _l, KINDS, True))
    def _mk0(op):
        def f(h):
            h.run(lambda: comparison(h, op, h.choose(KINDS), h.choose(KINDS), False))
        return f
    add_unit('C09', 'first comparison _ %s _' % _op, _mk0(_op))
for _c1 in ATT:
    for _c2 in ATT:
        def _mk2(a, b):
            return lambda h: h.run(lambda: comparison(h, '=', 'att', 'att', True, a, b, full=False))
        add_unit('C09', 'namespaces %s %s' % (_c1.__name__, _c2.__name__), _mk2(_c1, _c2))


def structure(h, kind, first):
    """AND, OR, NOT, attributes and boolean constants after arbitrary earlier comparisons."""
    w = World(h)
    order = []
    after = None
    if first:
        c1 = w.child()
        order.append(c1)
    if kind in ('AND', 'OR'):
        a, b = [w.child(c) for c in h.choose([(A.OpNode, A.BoolOpNode), (A.NotNode, A.OpNode), (A.BoolOpNode, A.NotNode)])]
        node = h.interp.call(A.BoolOpNode, [Token(TokenType.BOOL_OP, h.int('pos', 0), kind), a, b])
        order += [a, b]
    elif kind == 'NOT':
        a = w.child(h.choose([A.OpNode, A.BoolOpNode, A.NotNode]))
        node = h.interp.call(A.NotNode, [Token(TokenType.NOT_OP, h.int('pos', 0), kind), a])
        order += [a]
    elif kind == 'bool':
        node = h.interp.call(A.BoolValNode, [Token(TokenType.BOOL, h.int('pos', 0), h.choose(['TRUE', 'FALSE', 'UNDEF']))])
    else:
        node, p, name = att_node(h, kind)
        key = key_of(p, name)

        def after():
            w.state = w.state.define(key)
    if first:
        root = h.interp.call(A.BoolOpNode, [Token(TokenType.BOOL_OP, 0, h.choose(['AND', 'OR'])), c1, node])
    else:
        root = node
    c, o, lev = w.run(root, order, after)
    h.cover('structure %s' % (kind if isinstance(kind, str) else kind.__name__))
    w.finish(c, o, lev)


for _k in ['AND', 'OR', 'NOT', 'bool'] + list(ATT):
    for _f in (False, True):
        def _mk3(k, f):
            return lambda h: h.run(lambda: structure(h, k, f))
        add_unit('C09', '%s %s' % ('later' if _f else 'whole', _k if isinstance(_k, str) else _k.__name__), _mk3(_k, _f))


def fresh(h):
    node = val = h.interp.call(A.BoolValNode, [Token(TokenType.BOOL, 0, 'TRUE')])
    c = h.interp.call(TC.TypeChecker, [node, POLICY])
    g = h.method(c, 'get_result')
    h.check('no verdict before checking', not g.raised and g.value is RES.NONE)


add_unit('C09', 'before checking', lambda h: h.run(lambda: fresh(h)))


def selections(h):
    """get_errors / get_warnings select exactly the reports of their severity, in order."""
    w = World(h)
    c1 = w.child(A.OpNode)
    l, r = h.choose([('att', 'int'), ('str', 'int')])
    ln, _ = operand(h, l, A.UsrAttNode)
    rn, _ = operand(h, r, A.UsrAttNode)
    node = h.interp.call(A.OpNode, [Token(TokenType.OP, h.int('pos', 0), '='), ln, rn])
    root = h.interp.call(A.BoolOpNode, [Token(TokenType.BOOL_OP, 0, 'AND'), c1, node])
    c, o, lev = w.run(root, [c1], None, level=False)
    which, sevv = h.choose([('get_errors', ERR), ('get_warnings', WARN)])
    g = h.method(c, which)
    h.check('%s returns' % which, not g.raised)
    lst = list(g.value)
    # the report of the comparison itself (if any) comes last
    own = w.issue_list()[1:]
    tail = [x for x in own if enum_of(x) == sevv]
    h.check('%s: selects the report of the comparison' % which, len(lst) == 1 + len(tail) and
            all(a is b for a, b in zip(lst[1:], tail)) and type(lst[0]) is Seg)
    sel = lst[0].seq
    seq = all_ = w.reports[0][1]
    j = z3.Int(h.ctx.name('j'))
    case = h.choose(['member', 'complete', 'order'])
    if case == 'member':
        h.ctx.assume(z3.And(0 <= j, j < sel.n))
        x = sel.at(j)
        h.check('%s: only reports of that severity' % which, enum_of(x) == sevv)
        h.check('%s: only reports' % which, x.__dict__.get('_pyvc_of') is seq or any(x is y for y in w.issue_list()))
    elif case == 'complete':
        i = z3.Int(h.ctx.name('i'))
        h.ctx.assume(z3.And(0 <= i, i < all_.n))
        x = all_.at(i)
        if enum_of(x) != sevv:
            return
        pos = getattr(sel, 'pos_of', None)
        if pos is None:
            raise Unsupported('selection of reports')
        jj = pos(i)
        h.check('%s: every report of that severity' % which, z3.And(0 <= jj, jj < sel.n))
        y = sel.at(jj)
        h.check('%s: every report of that severity' % which, y.__dict__.get('_pyvc_of') is seq)
        h.check('%s: every report of that severity' % which, y.__dict__['_pyvc_index'] == x.__dict__['_pyvc_index'])
    else:
        idx = getattr(sel, 'index_of', None)
        if idx is None:
            raise Unsupported('selection of reports')
        j2 = z3.Int(h.ctx.name('j'))
        h.ctx.assume(z3.And(0 <= j, j < j2, j2 < sel.n))
        h.check('%s: in order' % which, idx(j) < idx(j2))


add_unit('C09', 'errors and warnings', lambda h: h.run(lambda: selections(h)))
