"""C01-C05: contracts of Interpreter.evaluate (and everything it calls).

Specification functions (value of an operand, result of a comparison, resolution of an attribute, Kleene tables) are
written here over mathematical values, independently of the code.  evaluate() is verified by structural induction:
the recursive evaluation function is executed for one node of every kind, and calls on the children of that node are
replaced by the induction hypothesis (the contract itself, instantiated for the child).
"""
import z3
from .common import *
from .common import UNITS

import hgpl.ast as A
import hgpl.symbols as SY
import hgpl.errors as E
import hgpl.interpreting as IN
from hgpl.lexing import Token, TokenType

TRUE, FALSE, UNDEF = A.ASTResult.TRUE, A.ASTResult.FALSE, A.ASTResult.UNDEF
ATT = {A.UsrAttNode: ('user.', TokenType.USR_ATT), A.ObjAttNode: ('object.', TokenType.OBJ_ATT),
       A.AdmAttNode: ('admin.', TokenType.ADM_ATT), A.ConAttNode: ('connect.', TokenType.CON_ATT),
       A.EnvAttNode: ('env.', TokenType.ENV_ATT)}
PREFIX = {p: t for p, t in ATT.values()}
POLICY = 'the policy text'
VAL = {'int': (A.IntValNode, TokenType.INT), 'float': (A.FloatValNode, TokenType.FLOAT),
       'str': (A.StringValNode, TokenType.STRING), 'null': (A.NullValNode, TokenType.NULL)}
OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET']
T, F, U = z3.IntVal(1), z3.IntVal(2), z3.IntVal(3)


def tri(b):
    return z3.If(b, T, F)


def k_not(a):
    return z3.If(a == T, F, z3.If(a == F, T, U))


def k_and(a, b):
    return z3.If(z3.Or(a == F, b == F), F, z3.If(z3.Or(a == U, b == U), U, T))


def k_or(a, b):
    return z3.If(z3.Or(a == T, b == T), T, z3.If(z3.Or(a == U, b == U), U, F))


class Sem:
    """Mathematical value of an operand.  kind: undef | bool | num | str | null | set"""

    def __init__(self, kind, val=None, attr=False):
        self.kind, self.val, self.attr = kind, val, attr

    def member(self):
        """As a set: its own members, or the singleton."""
        if self.kind == 'set':
            return self.val
        return atom_set([self.atom()])

    def atom(self):
        return {'num': lambda: Atom.Num(self.val), 'str': lambda: Atom.Str(self.val), 'null': lambda: Atom.Null}[self.kind]()


class TableSpec:
    """An attribute table of arbitrary content (the supplied attributes)."""

    VALUE_KINDS = ['none', 'bool', 'tri', 'int', 'float', 'str', 'null', 'set', 'list', 'other']

    def __init__(self, h, kinds=None):
        self.h = h
        self.kinds = kinds or self.VALUE_KINDS
        self.info = {}
        it = h.interp
        self.table = it.call(SY.SymbolTable, [])
        dicts = [k for k, v in self.table.__dict__.items() if isinstance(v, dict)]
        if len(dicts) != 1:
            raise Unsupported('representation of SymbolTable')
        self.attrname = dicts[0]
        self.map = SDict(factory=self.make, label='attributes')
        self.table.__dict__[self.attrname] = {OVERLAY: self.map}
        self.symbols = []

    def make(self, key):
        """A definition stored under `key` (C16: the symbol's own full name, in lower case)."""
        h = self.h
        ps = str_pieces(key)
        pre = ps[0] if isinstance(ps[0], str) else ''
        p = next((p for p in PREFIX if pre.startswith(p)), None)
        if p is None:
            return ABSENT
        name = mk_str((pre[len(p):],) + tuple(ps[1:]))
        kind = h.choose(self.kinds, 'value kind')
        val, sem = value_of_kind(h, kind)
        ty = h.enum(SY.SymbolType, 'type')
        sym = h.interp.call(SY.Symbol, [name, PREFIX[p], None, val])
        h.ctx.set_attr(sym, 'type', ty)
        self.symbols.append((sym, ty))
        self.info[id(sym)] = (kind, sem, ty, val)
        return sym

    def resolve(self, prefix, name):
        """Specification of an attribute reference: (Sem, problem)."""
        key = mk_str((prefix,) + tuple(str_pieces(models.lower(name))))
        sym = models.sd_lookup(self.h.interp, self.map, key)
        if sym is ABSENT:
            return Sem('undef'), True, 'unknown'
        kind, sem, ty, val = self.info[id(sym)]
        if kind == 'none':
            return Sem('undef'), True, 'no value'
        t = enum_term(ty)
        ST = SY.SymbolType
        ok = {'bool': [ST.BOOL], 'tri': [ST.BOOL], 'int': [ST.INT, ST.FLOAT], 'float': [ST.INT, ST.FLOAT],
              'str': [ST.STRING], 'set': [ST.SET], 'list': [ST.SET]}.get(kind, [])
        if not self.h.ctx.branch(z3.Or([t == m.value for m in ok]) if ok else False):
            return Sem('undef'), True, 'type'
        if sem.kind == 'bool':
            if self.h.ctx.branch(sem.val == U):
                return Sem('undef', attr=True), False, 'undef'
        return Sem(sem.kind, sem.val, True), False, 'ok'


def value_of_kind(h, kind):
    """(program value, Sem)"""
    if kind == 'none':
        return None, Sem('undef')
    if kind == 'bool':
        b = h.bool('b')
        return b, Sem('bool', z3.If(b.t, T, F))
    if kind == 'tri':
        e = h.enum(A.ASTResult, 'tri')
        return e, Sem('bool', e.t)
    if kind == 'int':
        v = h.int('int')
        return v, Sem('num', z3.ToReal(v.t))
    if kind == 'float':
        v = h.real('float')
        return v, Sem('num', v.t)
    if kind == 'str':
        v = h.str('str')
        return v, Sem('str', str_z3(v))
    if kind == 'null':
        return h.interp.call(A.ASTNullVal, []), Sem('null')
    if kind in ('set', 'list'):
        arr = z3.Const(h.ctx.name('member'), z3.SetSort(Atom))
        return SAtoms(arr, set if kind == 'set' else list, A.ASTNullVal()), Sem('set', arr)
    if kind == 'other':
        return Opaque('other value', pytype=Other), Sem('other')
    raise AssertionError(kind)


class Other:
    """Type of attribute values that are neither numbers, strings, booleans, sets nor lists."""


def val_node(h, kind, pos=None):
    cls, tt = VAL[kind]
    v, sem = value_of_kind(h, kind)
    tv = 'NULL' if kind == 'null' else v
    pos = h.int('pos', 0) if pos is None else pos
    return h.interp.call(cls, [Token(tt, pos, tv)]), sem


def set_node(h):
    """Set constant with any number of members of any atomic kinds."""
    ctx = h.ctx
    n = z3.Int(ctx.name('members'))
    ctx.assume(n >= 0)
    kind = z3.Function(ctx.name('mkind'), I, I)
    iv = z3.Function(ctx.name('mint'), I, I)
    rv = z3.Function(ctx.name('mreal'), I, R)
    sv = z3.Function(ctx.name('mstr'), I, S)
    nullobj = h.interp.call(A.ASTNullVal, [])

    def gen(i):
        if ctx.branch(kind(i) == 0):
            return h.interp.call(A.IntValNode, [Token(TokenType.INT, 0, SInt(iv(i)))])
        if ctx.branch(kind(i) == 1):
            return h.interp.call(A.FloatValNode, [Token(TokenType.FLOAT, 0, SReal(rv(i)))])
        if ctx.branch(kind(i) == 2):
            return h.interp.call(A.StringValNode, [Token(TokenType.STRING, 0, mk_str([ZS(sv(i))]))])
        return h.interp.call(A.NullValNode, [Token(TokenType.NULL, 0, 'NULL')])

    seq = SSeq(n, gen, list, 'members')
    node = h.interp.call(A.SetNode, [Token(TokenType.LSET, 0), Token(TokenType.RSET, 1), [Seg(seq)]])

    def val(i):
        if ctx.branch(kind(i) == 0):
            return SInt(iv(i))
        if ctx.branch(kind(i) == 1):
            return SReal(rv(i))
        if ctx.branch(kind(i) == 2):
            return mk_str([ZS(sv(i))])
        return A.ASTNullVal()
    vals = SSeq(n, val, list, 'member values')
    return node, Sem('set', h.interp.as_atoms(vals).arr)


def att_node(h, cls, name=None):
    p, tt = ATT[cls]
    name = h.str('name') if name is None else name
    return h.interp.call(cls, [Token(tt, h.int('pos', 0), name)]), p, name


def expected(op, L, Rr):
    """(result term, own warning expected)"""
    if op == '!=':
        r, w = expected('=', L, Rr)
        return k_not(r), w
    if L.kind == 'undef' or Rr.kind == 'undef':
        return U, False
    if 'bool' in (L.kind, Rr.kind):
        return U, True
    if op in ('<', '>', '<=', '>='):
        if L.kind == 'num' and Rr.kind == 'num':
            return tri({'<': L.val < Rr.val, '>': L.val > Rr.val, '<=': L.val <= Rr.val, '>=': L.val >= Rr.val}[op]), False
        return U, True

    def settish(x, o):
        return x.kind == 'set' or (x.attr and (o.kind == 'set' or o.attr))
    a = z3.Const('spec!elem', Atom)
    if op == 'IN':
        rs = Rr.kind == 'set' or (Rr.attr and (L.attr or L.kind == 'set'))
        if not rs:
            return U, True
        if L.kind == 'set':
            return tri(z3.Exists([a], z3.And(z3.Select(L.val, a), z3.Select(Rr.member(), a)))), False
        return tri(z3.Select(Rr.member(), L.atom())), False
    ls, rs = settish(L, Rr), settish(Rr, L)
    if ls and rs:
        m, n = L.member(), Rr.member()
        if op == '=':
            return tri(m == n), False
        return tri(z3.IsSubset(m, n)), False
    if op == 'SUBSET' or ls != rs or L.kind != Rr.kind:
        return U, True
    if L.kind == 'null':
        return T, False
    return tri(L.val == Rr.val), False


# ------------------------------------------------------------------------------------------------ protocol
_proto = {}


def protocol():
    """How the code hands results and warnings around: found by running it on a boolean constant / unknown attribute."""
    if _proto:
        return _proto
    it = IN.Interpreter(A.UsrAttNode(Token(TokenType.USR_ATT, 0, 'x')), 'p')
    it.evaluate(SY.SymbolTable())
    lists = [k for k, v in it.__dict__.items() if isinstance(v, list) and len(v) == 1]
    _proto['warn'] = lists[0] if len(lists) == 1 else None
    return _proto


def make_interp(h, root, havoc=True):
    """An Interpreter for root in an arbitrary state left behind by earlier evaluations.

    Every field that evaluate() assigns is unknown (reading it before assigning it is reported)."""
    it = h.interp.call(IN.Interpreter, [root, POLICY])
    if havoc:
        for f in written_fields():
            if f in it.__dict__:
                it.__dict__[f] = Poison('state of an earlier evaluation')
    return it


_wf = []


def written_fields():
    """Fields of the interpreter assigned by evaluate(), observed on a run with warnings."""
    if not _wf:
        class Obs(IN.Interpreter):
            def __setattr__(self, k, v):
                _wf[0].add(k)
                object.__setattr__(self, k, v)
        _wf.append(set())
        node = A.NotNode(Token(TokenType.NOT_OP, 0, 'NOT'), A.OpNode(Token(TokenType.OP, 0, '='),
                         A.UsrAttNode(Token(TokenType.USR_ATT, 0, 'x')), A.IntValNode(Token(TokenType.INT, 0, 1))))
        o = Obs(node, 'p')
        _wf[0] = set()
        o.evaluate(SY.SymbolTable())
    return _wf[0]


class Frame_:
    """Protected state: policy tree and attribute table must be as before."""

    def __init__(self, h, nodes, table):
        self.h = h
        self.objs = []
        for n in nodes:
            self.objs.append((n, {k: v for k, v in n.__dict__.items() if k != 'result'}, 'policy node'))
            self.objs.append((n.token, dict(n.token.__dict__), 'token'))
            self.objs.append((n.__dict__.get('_node_list'), None, 'child list'))
        self.lists = [(n.__dict__['_node_list'], list(n.__dict__['_node_list'])) for n in nodes
                      if isinstance(n.__dict__.get('_node_list'), list)]
        self.table = table
        self.tdict = dict(table.table.__dict__) if table else None

    def check(self):
        h = self.h
        bad = []
        for o, d, what in self.objs:
            if d is None:
                continue
            now = {k: v for k, v in o.__dict__.items() if k != 'result' or what == 'token'}
            ch = [k for k in d if k not in now or now[k] is not d[k]]
            if ch:
                bad.append('fields of %s changed: %s' % (what, sorted(ch)))
        for l, old in self.lists:
            if not (len(l) == len(old) and all(a is b for a, b in zip(l, old))):
                bad.append('list of children changed')
        h.check('frame: policy tree unchanged', not bad, '; '.join(bad))
        if self.table is not None:
            t = self.table
            now = t.table.__dict__
            bad = []
            if not (set(now) == set(self.tdict) and all(now[k] is self.tdict[k] for k in now) and
                    now[t.attrname].get(OVERLAY) is t.map):
                bad.append('table replaced')
            if any(k == 'dict' and o is t.map for k, o, key, u in h.ctx.journal.log):
                bad.append('definition stored')
            for sym, ty in t.symbols:
                kind, sem, ty0, val = t.info[id(sym)]
                if sym.__dict__.get('type') is not ty0:
                    bad.append('attribute type changed')
                stores = [key for k, o, key, u in h.ctx.journal.log if k == 'attr' and o is sym]
                # constructor + type by the harness; nothing else may be stored
                if len(stores) != self.table_writes(sym):
                    bad.append('attribute written: %s' % stores)
            h.check('frame: attribute table unchanged', not bad, '; '.join(bad))

    def table_writes(self, sym):
        base = BASE_WRITES.get('n')
        if base is None:
            c = Ctx(Report())
            i = Interp(c)
            m = c.journal.mark()
            s = i.call(SY.Symbol, ['n', TokenType.USR_ATT, None, 1])
            BASE_WRITES['n'] = base = len([1 for k, o, key, u in c.journal.log[m:] if k == 'attr' and o is s])
            V.CTX[0] = self.h.ctx
        return base + 1


BASE_WRITES = {}


def stale(h, node):
    """Result left on the node by an earlier evaluation: anything."""
    if h.choose([0, 1], 'stale'):
        node.__dict__['result'] = h.enum(A.ASTResult, 'stale')
    else:
        node.__dict__['result'] = None


def warnings_of(h, it):
    o = h.method(it, 'get_warnings')
    if o.raised:
        h.check('get_warnings() returns', False)
    return o.value


def check_warn_objects(h, ws):
    for w in ws:
        if type(w) is Seg:
            continue
        h.check('a recorded warning is an InterpreterWarning of severity WARN',
                isinstance(w, E.InterpreterWarning) and w.__dict__.get('type') == E.ErrorType.WARN)
        h.check('a recorded warning carries the policy text', w.__dict__.get('policy_text') is POLICY or
                w.__dict__.get('policy_text') == POLICY)


# ------------------------------------------------------------------------------------------------ comparison units
def operand(h, kind, tab, attcls=A.UsrAttNode):
    if kind == 'set':
        n, s = set_node(h)
        return n, (lambda: (s, False, 'const'))
    if kind == 'att':
        n, p, name = att_node(h, attcls)
        return n, (lambda: tab.resolve(p, name))
    n, s = val_node(h, kind)
    return n, (lambda: (s, False, 'const'))


def level_arg(h, none=True):
    k = h.choose(['absent', 'none', 'level'] if none else ['absent', 'level'], 'level')
    if k == 'absent':
        return [], None
    if k == 'none':
        return [None], None
    e = h.enum(E.ErrorType, 'level')
    return [e], e


SOME_KINDS = ['none', 'bool', 'int', 'str', 'set', 'list']


def comparison(h, op, lk, rk, want):
    tab = TableSpec(h, SOME_KINDS if want != 'C02' and (lk, rk) == ('att', 'att') else None)
    lnode, lsem = operand(h, lk, tab)
    rnode, rsem = operand(h, rk, tab, A.ObjAttNode if (op in ('<', 'IN')) else A.UsrAttNode)
    otok = Token(TokenType.OP, h.int('oppos', 0), op)
    node = h.interp.call(A.OpNode, [otok, lnode, rnode])
    for n in (node, lnode, rnode):
        if not isinstance(n, A.ValNode):
            n.__dict__['result'] = h.enum(A.ASTResult, 'stale') if want == 'C04' else None
    it = make_interp(h, node)
    fr = Frame_(h, [node, lnode, rnode], tab)
    extra, lev = level_arg(h, False) if want == 'C05' else ([], None)
    o = h.method(it, 'evaluate', tab.table, *extra)
    L, lp, _ = lsem()
    Rr, rp, _ = rsem()
    res, own = expected(op, L, Rr)
    h.cover('comparison %s %s %s' % (lk, op, rk))
    if want in ('C02', 'C04'):
        h.check('evaluate(%s %s %s) returns without exception' % (lk, op, rk), not o.raised,
                'raised %s' % type(o.value).__name__ if o.raised else None)
        ok = isinstance(o.value, A.ASTResult) or isinstance(o.value, SEnum) and o.value.cls is A.ASTResult
        h.check('%s %s %s yields a truth value' % (lk, op, rk), ok, 'returned %r' % (o.value,))
        h.check('%s %s %s yields the specified result' % (lk, op, rk), enum_term(o.value) == res)
    if want == 'C04':
        fr.check()
    if want == 'C05':
        problems = int(lp) + int(rp) + int(own)
        ws = warnings_of(h, it)
        check_warn_objects(h, ws)
        n = len(ws)
        h.check('%s %s %s: a warning for each problem' % (lk, op, rk), n >= problems, '%d warnings' % n)
        if not problems:
            h.check('%s %s %s: no warning without a problem' % (lk, op, rk), n == 0)
        threshold(h, o, ws, lev, problems)


def threshold(h, o, ws, lev, problems):
    WARN = E.ErrorType.WARN.value
    should = z3.BoolVal(False)
    if lev is not None and problems:
        should = enum_term(lev) <= WARN
    if o.raised:
        h.check('an exception is raised only if a warning reaches the threshold', should,
                'raised %s' % type(o.value).__name__)
        h.check('the exception raised is the first warning', len(ws) > 0 and o.value is ws[0])
    else:
        h.check('a warning that reaches the threshold is raised', z3.Not(should))


def mk_comparison(prop, op, lk, rk):
    def f(h):
        h.run(lambda: comparison(h, op, lk, rk, prop))
    return f


KINDS = ['int', 'float', 'str', 'null', 'set', 'att']
for _op in OPS:
    for _l in KINDS:
        for _p in ('C02', 'C04', 'C05'):
            def _mk(p, op, l, rs):
                def f(h):
                    def body():
                        r = rs[0] if len(rs) == 1 else h.choose(rs, 'right')
                        comparison(h, op, l, r, p)
                    h.run(body)
                return f
            if _p == 'C04' and not (_l in ('att', 'set') or _op == '='):
                continue
            if _l == 'att':
                for _rs in (['att'], ['set', 'str', 'null'], ['int', 'float']):
                    add_unit(_p, 'comparison %s %s %s' % (_l, _op, '/'.join(_rs)), _mk(_p, _op, _l, _rs))
            else:
                add_unit(_p, 'comparison %s %s _' % (_l, _op), _mk(_p, _op, _l, KINDS))


# ------------------------------------------------------------------------------------------------ attribute units (C03)
def reference(h, cls, want, notable=False):
    tab = TableSpec(h)
    node, p, name = att_node(h, cls)
    stale(h, node)
    it = make_interp(h, node)
    fr = Frame_(h, [node], tab)
    extra, lev = level_arg(h) if want == 'C05' else ([], None)
    if notable:
        o = h.method(it, 'evaluate', *([None] if h.choose([0, 1], 'none') else []))
        sem, problem = Sem('undef'), True
    else:
        o = h.method(it, 'evaluate', tab.table, *extra)
        sem, problem, why = tab.resolve(p, name)
    h.cover('reference %s' % cls.__name__)
    if want in ('C03', 'C04'):
        h.check('evaluating a reference returns', not o.raised, 'raised %s' % type(o.value).__name__ if o.raised else None)
        v = o.value
        if sem.kind == 'undef':
            h.check('an undefined reference is UNDEF', isinstance(v, (A.ASTResult, SEnum)) and
                    z3.simplify(enum_term(v) == U) if isinstance(v, (A.ASTResult, SEnum)) else False)
        elif sem.kind == 'bool':
            h.check('a boolean attribute stands for its truth value', enum_term(v) == sem.val
                    if isinstance(v, (A.ASTResult, SEnum)) else False)
        else:
            h.check('a defined reference is not a truth value', not isinstance(v, (A.ASTResult, SEnum)))
    if want == 'C04':
        fr.check()
    if want == 'C05':
        ws = warnings_of(h, it)
        check_warn_objects(h, ws)
        h.check('a warning for an undefined reference, none otherwise', (len(ws) > 0) == problem, '%d warnings' % len(ws))
        threshold(h, o, ws, lev, problem)


for _c in ATT:
    for _p in ('C03', 'C04', 'C05'):
        def _mk(c, p):
            return lambda h: h.run(lambda: reference(h, c, p))
        add_unit(_p, 'reference %s' % _c.__name__, _mk(_c, _p))
    def _mk2(c):
        return lambda h: h.run(lambda: reference(h, c, 'C03', notable=True))
    add_unit('C03', 'reference without attributes %s' % _c.__name__, _mk2(_c))
    add_unit('C04', 'reference without attributes %s' % _c.__name__, _mk2(_c))


def two_refs(h, c1, c2):
    """`user.a = object.b`: each reference denotes its own attribute."""
    tab = TableSpec(h, kinds=['int'])
    n1, p1, nm1 = att_node(h, c1)
    n2, p2, nm2 = att_node(h, c2)
    node = h.interp.call(A.OpNode, [Token(TokenType.OP, 0, '>'), n1, n2])
    it = make_interp(h, node)
    o = h.method(it, 'evaluate', tab.table)
    L, lp, _ = tab.resolve(p1, nm1)
    Rr, rp, _ = tab.resolve(p2, nm2)
    res, own = expected('>', L, Rr)
    h.check('evaluate returns', not o.raised)
    h.check('each reference denotes its own attribute', enum_term(o.value) == res)


for _c1 in ATT:
    for _c2 in ATT:
        def _mk(a, b):
            return lambda h: h.run(lambda: two_refs(h, a, b))
        add_unit('C03', 'two references %s %s' % (_c1.__name__, _c2.__name__), _mk(_c1, _c2))


# ------------------------------------------------------------------------------------------------ composition (C01)
CHILD = [A.BoolValNode] + list(ATT) + [A.NotNode, A.BoolOpNode, A.OpNode, A.IntValNode, A.FloatValNode,
                                       A.StringValNode, A.NullValNode, A.SetNode]
CTOK = {A.BoolValNode: TokenType.BOOL, A.NotNode: TokenType.NOT_OP, A.BoolOpNode: TokenType.BOOL_OP,
        A.OpNode: TokenType.OP, A.SetNode: TokenType.LSET, A.IntValNode: TokenType.INT, A.FloatValNode: TokenType.FLOAT,
        A.StringValNode: TokenType.STRING, A.NullValNode: TokenType.NULL}


class Child:
    """An operand of which only the contract of its evaluation is known."""

    def __init__(self, h, cls, tag):
        self.h, self.cls, self.tag = h, cls, tag
        if cls is A.BoolValNode:
            word = h.choose(['TRUE', 'FALSE', 'UNDEF'], 'const')
            self.node = h.interp.call(cls, [Token(TokenType.BOOL, h.int('pos', 0), word)])
            self.node.__dict__['_node_list'] = []
            self.outcomes = [('bool', {'TRUE': TRUE, 'FALSE': FALSE, 'UNDEF': UNDEF}[word])]
            self.opaque = False
        elif cls in (A.IntValNode, A.FloatValNode, A.StringValNode, A.NullValNode):
            k = {A.IntValNode: 'int', A.FloatValNode: 'float', A.StringValNode: 'str', A.NullValNode: 'null'}[cls]
            self.node, s = val_node(h, k)
            self.outcomes = [('other', None)]
            self.opaque = False
        else:
            n = object.__new__(cls)
            n.token = Token(ATT[cls][1] if cls in ATT else CTOK[cls], h.int('pos', 0), Poison('child token'))
            n.id = h.int('id')
            n._node_list = Poison('children of a child')
            n.result = None
            if h.choose([0, 1], 'stale'):
                n.result = h.enum(A.ASTResult, 'stale')
            self.node = n
            self.opaque = True
        self.applied = 0
        self.sem = None
        self.warn = z3.IntVal(0)

    def apply(self, it):
        """Induction hypothesis: evaluating the child sets its result to its value and records its warnings."""
        h = self.h
        self.applied += 1
        if self.applied > 1:
            raise Unsupported('an operand is evaluated twice')
        if self.cls in ATT:
            k = h.choose(['bool', 'symbol'], 'value')
        elif self.cls is A.SetNode:
            k = 'list'
        else:
            k = h.choose(['bool', 'error'], 'value')
        wattr = protocol()['warn']
        if wattr is None:
            raise Unsupported('no list of warnings')
        lst = h.interp.load_attr(it, wattr)
        if not isinstance(lst, list):
            raise Unsupported('no list of warnings')
        n = z3.Int(h.ctx.name('warnings'))
        h.ctx.assume(n >= 0)
        self.warn = n

        def gen(i):
            w = E.InterpreterWarning('w', POLICY, 0)
            w.__dict__['_pyvc_index'] = i
            w.__dict__['_pyvc_child'] = self
            return w
        h.ctx.touch(lst)
        lst.append(Seg(SSeq(n, gen, list, 'warnings')))
        if k == 'error':
            self.sem = ('error', None)
            raise mark(E.InterpreterError('operand', POLICY, 0))
        if k == 'bool':
            v = h.enum(A.ASTResult, 'operand')
            self.sem = ('bool', v)
        elif k == 'symbol':
            v = object.__new__(SY.Symbol)
            v.type, v._value, v.att_type, v.att_name, v.name = SY.SymbolType.INT, h.int('v'), ATT[self.cls][1], 'n', 'user.n'
            self.sem = ('other', v)
        else:
            v = []
            self.sem = ('other', v)
        h.ctx.set_attr(self.node, 'result', v)
        return v

    def value(self):
        if not self.opaque:
            return self.outcomes[0]
        return self.sem


def ih(h, it, kids):
    """Replace recursive evaluation of a child by its contract."""
    by = {id(k.node): k for k in kids if k.opaque}

    def hook(interp, f, args, kwargs):
        hit = [by[id(a)] for a in list(args) + list(kwargs.values()) if id(a) in by]
        if not hit:
            return NOTHANDLED
        if any(fr.func is f for fr in interp.stack):
            return hit[0].apply(it)
        return NOTHANDLED
    h.interp.call_hook = hook


def compose(h, kind, c1, want):
    kids = [Child(h, c1, 'left')]
    if kind != 'NOT':
        kids.append(Child(h, h.choose(CHILD, 'right class'), 'right'))
        tok = Token(TokenType.BOOL_OP, h.int('pos', 0), kind)
        node = h.interp.call(A.BoolOpNode, [tok, kids[0].node, kids[1].node])
    else:
        tok = Token(TokenType.NOT_OP, h.int('pos', 0), 'NOT')
        node = h.interp.call(A.NotNode, [tok, kids[0].node])
    stale(h, node)
    it = make_interp(h, node)
    ih(h, it, kids)
    fr = Frame_(h, [node] + [k.node for k in kids], None)
    table = h.interp.call(SY.SymbolTable, [])
    extra, lev = level_arg(h) if want == 'C05' else ([], None)
    o = h.method(it, 'evaluate', table, *extra)
    h.interp.call_hook = None
    sems = [k.value() for k in kids]
    err = any(s is not None and s[0] == 'error' for s in sems)
    if any(s is None for s in sems) and not err:
        # an operand was not evaluated: its value is arbitrary
        if want in ('C01', 'C04'):
            for k in kids:
                if k.value() is None:
                    if k.cls in ATT:
                        raise Unsupported('short-circuit evaluation')
                    k.sem = ('bool', h.enum(A.ASTResult, 'unevaluated'))
            sems = [k.value() for k in kids]
    h.cover('%s %s' % (kind, c1.__name__))
    if err or any(s is None or s[0] == 'other' for s in sems):
        if want in ('C01', 'C04'):
            h.check('%s with a non-boolean or failing operand is an interpreter error' % kind,
                    o.raised and isinstance(o.value, E.InterpreterError) and not isinstance(o.value, E.InterpreterWarning),
                    'outcome %s' % o.kind)
        return
    a = enum_term(sems[0][1])
    exp = k_not(a) if kind == 'NOT' else (k_and if kind == 'AND' else k_or)(a, enum_term(sems[1][1]))
    if want in ('C01', 'C04'):
        h.check('%s of boolean operands returns' % kind, not o.raised, 'raised %r' % (o.value,) if o.raised else None)
        v = o.value
        ok = isinstance(v, (A.ASTResult, SEnum))
        h.check('%s yields a truth value' % kind, ok, 'returned %r' % (v,))
        h.check('%s follows the Kleene table' % kind, enum_term(v) == exp)
        res = node.__dict__.get('result')
        h.check('the contract holds for the node itself (result kept on the node)', isinstance(res, (A.ASTResult, SEnum)) and
                z3.is_expr(enum_term(res)) and enum_term(res) == exp if isinstance(res, (A.ASTResult, SEnum)) else False)
        g = h.interp.truth(v)
        h.check('only TRUE grants', (exp == T) == z3.BoolVal(bool(g)))
    if want == 'C04':
        fr.check()
    if want == 'C05':
        total = sum((k.warn for k in kids), z3.IntVal(0))
        WARN = E.ErrorType.WARN.value
        should = z3.And(total > 0, enum_term(lev) <= WARN) if lev is not None else z3.BoolVal(False)
        ws = warnings_of(h, it)
        h.check('warnings of the parts, nothing else', h.interp.length_term(ws) == total)
        if o.raised:
            h.check('an exception is raised only if a warning reaches the threshold', should)
            w = o.value
            c = getattr(w, '_pyvc_child', None)
            first = c is not None and c in kids
            h.check('the exception raised is a recorded warning', first)
            before = [k.warn for k in kids[:kids.index(c)]]
            h.check('the exception raised is the first warning', z3.And([w._pyvc_index == 0] + [b == 0 for b in before]))
        else:
            h.check('a warning that reaches the threshold is raised', z3.Not(should))


for _k in ('NOT', 'AND', 'OR'):
    for _c in CHILD:
        for _p in ('C01', 'C04', 'C05'):
            def _mk(k, c, p):
                return lambda h: h.run(lambda: compose(h, k, c, p))
            if _p == 'C04' and _c in (A.IntValNode, A.FloatValNode, A.StringValNode, A.NullValNode):
                continue
            add_unit(_p, '%s over %s' % (_k, _c.__name__), _mk(_k, _c, _p))


def bool_const(h):
    word = h.choose(['TRUE', 'FALSE', 'UNDEF'])
    node = h.interp.call(A.BoolValNode, [Token(TokenType.BOOL, h.int('pos', 0), word)])
    it = make_interp(h, node)
    o = h.method(it, 'evaluate', h.interp.call(SY.SymbolTable, []))
    h.check('a boolean constant denotes itself', not o.raised and isinstance(o.value, A.ASTResult) and
            o.value.name == word)
    h.check('no warnings', len(warnings_of(h, it)) == 0)


add_unit('C01', 'boolean constants', lambda h: h.run(lambda: bool_const(h)))
add_unit('C05', 'boolean constants', lambda h: h.run(lambda: bool_const(h)))


def truth_value(h):
    r = h.enum(A.ASTResult, 'r')
    g = h.interp.truth(r)
    h.check('only TRUE is true', (enum_term(r) == T) == z3.BoolVal(bool(g)))


add_unit('C01', 'truth of a result', lambda h: h.run(lambda: truth_value(h)))
