"""C16: contracts of hgpl.symbols.

An attribute table is arbitrary: its dictionary is an unknown map from lower-case full names to symbols (that is the
representation invariant; the empty table satisfies it, define() is shown to preserve it, and every other operation is
specified over it).  All statements are made through the public operations for an arbitrary (Skolem) probe name."""
import z3
from .common import *
import hgpl.symbols as SY
import hgpl.ast as AST
from hgpl.lexing import TokenType

NS = [('user', TokenType.USR_ATT), ('object', TokenType.OBJ_ATT), ('env', TokenType.ENV_ATT),
      ('admin', TokenType.ADM_ATT), ('connect', TokenType.CON_ATT)]
TYPES = list(SY.SymbolType)


def lo(v):
    return str_z3(models.lower(v))


def some_value(h, what='value'):
    k = h.choose(['none', 'int', 'str', 'bool', 'tri', 'set'], what)
    if k == 'none':
        return None
    if k == 'int':
        return h.int(what)
    if k == 'str':
        return h.str(what)
    if k == 'bool':
        return h.choose([True, False])
    if k == 'tri':
        return h.choose(list(AST.ASTResult))
    return SAtoms(z3.Const(h.ctx.name('set'), z3.SetSort(Atom)), set, None)


def kept(h, got, given):
    """Stored value of a given one: itself, or the truth value of a bool."""
    if isinstance(given, bool):
        return got is (AST.ASTResult.TRUE if given else AST.ASTResult.FALSE)
    if isinstance(given, SBool):
        if got in (AST.ASTResult.TRUE, AST.ASTResult.FALSE) if not isinstance(got, Sym) else False:
            return given.t == (got is AST.ASTResult.TRUE)
        if isinstance(got, SEnum):
            return got.t == z3.If(given.t, AST.ASTResult.TRUE.value, AST.ASTResult.FALSE.value)
        return False
    return got is given


class Arbitrary:
    """Table with unknown contents."""

    def __init__(self, h, simple=False):
        self.h = h
        self.simple = simple
        self.t = h.interp.call(SY.SymbolTable, [])
        ds = [k for k, v in self.t.__dict__.items() if isinstance(v, dict) and not v]
        if len(ds) != 1:
            raise Unsupported('representation of SymbolTable')
        self.map = SDict(factory=self.make, label='table')
        from engine import loops
        d = {OVERLAY: self.map}
        loops.OWNERS[id(self.map)] = (self.map, d)
        self.t.__dict__[ds[0]] = d

    def make(self, key):
        h = self.h
        h.ctx.assume(str_z3(models.lower(key)) == str_z3(key))
        s = h.interp.call(SY.Symbol, [h.str('att_name'), TokenType.USR_ATT, None,
                                      h.int('value') if self.simple else some_value(h)])
        h.interp.store_attr(s, 'name', key)
        h.interp.store_attr(s, 'type', h.enum(SY.SymbolType, 'type'))
        h.interp.store_attr(s, 'att_type', h.enum(TokenType, 'att_type', [t for _, t in NS] + [TokenType.UNK_ATT]))
        return s


def ret(h, o, what):
    h.check(what + ' does not fail', o.kind == 'return', detail=repr(o))
    return o.value


def look(h, t, name, what='lookup'):
    return ret(h, h.method(t, 'lookup', name), what)


def same_name(a, b):
    return lo(a) == lo(b)


def fields(h, s):
    return {f: h.get(s, f) for f in ('name', 'att_name', 'type', 'att_type', 'value')}


def unchanged(h, s, old, but=()):
    for f, v in old.items():
        if f not in but:
            w = h.get(s, f)
            h.check('%s is unchanged' % f, w is v or h.eq(w, v))


def new_symbol(h, value=None):
    ns, at = h.choose(NS)
    return h.interp.call(SY.Symbol, [h.str('att_name'), at, h.choose([None, SY.SymbolType.INT]), value])


@unit('C16', 'define')
def _define(h):
    def body():
        T = Arbitrary(h, simple=True)
        s = new_symbol(h, h.int('value'))
        q = h.str('probe')
        n = h.get(s, 'name')
        before = look(h, T.t, q)
        v = h.str('variant')
        h.ctx.assume(same_name(v, n))
        had = look(h, T.t, v)
        old = fields(h, s)
        r = ret(h, h.method(T.t, 'define', s), 'define')
        h.check('define reports success exactly for a new name', r is (had is None), detail=repr(r))
        now = look(h, T.t, v)
        h.check('the first definition wins', now is (s if had is None else had))
        h.check('lookup by the symbol itself', look(h, T.t, s) is now)
        after = look(h, T.t, q)
        if h.ctx.branch(same_name(q, n)):
            h.check('the name denotes the definition in any letter case', after is now)
        else:
            h.check('other names are not affected', after is before)
        ex = ret(h, h.method(T.t, 'exists', q), 'exists')
        h.check('exists agrees with lookup', bool_term(ex) == (after is not None) if isinstance(ex, (bool, SBool)) else False)
        unchanged(h, s, old)
        h.cover('defined' if had is None else 'refused')
    h.run(body)


@unit('C16', 'accessors agree with lookup')
def _access(h):
    def body():
        T = Arbitrary(h)
        q = h.str('probe')
        v = h.str('variant')
        h.ctx.assume(same_name(v, q))
        s = look(h, T.t, q)
        ex = ret(h, h.method(T.t, 'exists', v), 'exists')
        h.check('exists', bool_term(ex) == (s is not None))
        h.check('lookup in another letter case', look(h, T.t, v) is s)
        for m, f in (('lookup_type', 'type'), ('lookup_att_type', 'att_type'), ('lookup_att_name', 'att_name')):
            r = ret(h, h.method(T.t, m, v), m)
            if s is None:
                h.check(m + ' of an undefined name reports absence', r is None)
            else:
                h.check(m, r is not None and h.eq(r, h.get(s, f)))
        o = h.method(T.t, 'lookup_value', v)
        if s is None:
            h.check('lookup_value of an undefined name reports absence', o.raised or o.value is None, detail=repr(o))
        else:
            h.check('lookup_value', o.kind == 'return' and (o.value is h.get(s, 'value') or h.eq(o.value, h.get(s, 'value'))))
            h.check('accessors accept the symbol itself',
                    ret(h, h.method(T.t, 'lookup_type', s), 'lookup_type') is not None)
        h.cover('absent' if s is None else 'present')
    h.run(body)


@unit('C16', 'set_value')
def _set_value(h):
    def body():
        T = Arbitrary(h, simple=True)
        q, p = h.str('name'), h.str('other')
        v = h.str('variant')
        h.ctx.assume(same_name(v, q))
        sq = look(h, T.t, q)
        sp = look(h, T.t, p)
        fp = fields(h, sp) if sp is not None else None
        fq = fields(h, sq) if sq is not None else None
        val = some_value(h, 'new value')
        o = h.method(T.t, 'set_value', v, val)
        if sq is None:
            h.check('setting an undefined name is refused', o.raised)
        else:
            h.check('setting a value does not fail', not o.raised, detail=repr(o))
            h.check('the value is set', kept(h, h.get(look(h, T.t, q), 'value'), val))
            unchanged(h, sq, fq, but=('value',))
        same = h.ctx.branch(same_name(p, q))
        h.check('the same symbols are defined', look(h, T.t, p) is sp and look(h, T.t, q) is sq)
        if sp is not None and not same:
            unchanged(h, sp, fp)
        h.cover('refused' if sq is None else 'set')
    h.run(body)


@unit('C16', 'switch_type')
def _switch(h):
    def body():
        T = Arbitrary(h, simple=True)
        q, p = h.str('name'), h.str('other')
        v = h.str('variant')
        h.ctx.assume(same_name(v, q))
        sq = look(h, T.t, q)
        sp = look(h, T.t, p)
        fp = fields(h, sp) if sp is not None else None
        fq = fields(h, sq) if sq is not None else None
        ty = h.enum(SY.SymbolType, 'new')
        o = h.method(T.t, 'switch_type', v, ty)
        if sq is None:
            h.check('changing the type of an undefined name is refused', o.raised)
        else:
            h.check('changing a type does not fail', not o.raised, detail=repr(o))
            h.check('the former type is returned', h.eq(o.value, fq['type']))
            h.check('the type is set', h.eq(h.get(look(h, T.t, q), 'type'), ty))
            unchanged(h, sq, fq, but=('type',))
        same = h.ctx.branch(same_name(p, q))
        h.check('the same symbols are defined', look(h, T.t, p) is sp and look(h, T.t, q) is sq)
        if sp is not None and not same:
            unchanged(h, sp, fp)
        h.cover('refused' if sq is None else 'changed')
    h.run(body)


@unit('C16', 'empty table')
def _empty(h):
    def body():
        t = h.interp.call(SY.SymbolTable, [])
        q = h.str('probe')
        h.check('nothing is defined', look(h, t, q) is None and ret(h, h.method(t, 'exists', q), 'exists') is False)
        t2 = h.interp.call(SY.SymbolTable, [])
        s = new_symbol(h)
        ret(h, h.method(t, 'define', s), 'define')
        h.check('tables are independent', look(h, t2, q) is None)
    h.run(body)


@unit('C16', 'symbols')
def _symbol(h):
    def body():
        ns, at = h.choose(NS)
        n = h.str('att_name')
        ty = h.choose([None] + TYPES)
        v = some_value(h)
        s = ret(h, h.call(SY.Symbol, n, at, ty, v), 'construction')
        h.check('full name in lower case', lo(h.get(s, 'name')) == str_z3(h.get(s, 'name')))
        h.check('full name', str_z3(h.get(s, 'name')) == z3.Concat(zlit(ns + '.'), lo(n)))
        h.check('attribute name', str_z3(h.get(s, 'att_name')) == lo(n))
        h.check('namespace', h.get(s, 'att_type') is at)
        h.check('type', h.get(s, 'type') is (ty or SY.SymbolType.UNKNOWN))
        h.check('value', kept(h, h.get(s, 'value'), v))
        w = some_value(h, 'later value')
        h.interp.store_attr(s, 'value', w)
        h.check('later value', kept(h, h.get(s, 'value'), w))
    h.run(body)


# ------------------------------------------------------------------------------------------------ builder
class Given:
    """Attribute values supplied for one namespace: a dict of unknown size."""

    def __init__(self, h, ns, kind):
        self.h, self.ns, self.kind = h, ns, kind
        tag = h.ctx.name(ns)
        self.n = z3.Int(tag + '.n')
        h.ctx.assume(self.n >= 0)
        self.k = z3.Function(tag + '.key', I, S)
        self.v = z3.Function(tag + '.val', I, I if kind != 'bool' else B)
        i, j = z3.Ints('i j')
        h.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < self.n, 0 <= j, j < self.n, self.k(i) == self.k(j)), i == j)))
        self.dict = models.KDict(self.n, self.key, self.val, ns)

    def key(self, i):
        s = mk_str([ZS(self.k(i))])
        if isinstance(s, SStr):
            s.index_in = (self.dict, i)
        return s

    def val(self, i):
        return SBool(self.v(i)) if self.kind == 'bool' else SInt(self.v(i))

    def full(self, i):
        return z3.Concat(zlit(self.ns + '.'), LOWER(self.k(i)))


def _build(h, ns_under_test, kind):
    def body():
        given = {ns: Given(h, ns, kind if ns == ns_under_test else 'int') for ns, _ in NS}
        ft = z3.Function(h.ctx.name('declared'), S, I)
        has = z3.Function(h.ctx.name('declares'), S, B)
        x = z3.String('x')
        h.ctx.assume(z3.ForAll([x], z3.Or([ft(x) == m.value for m in TYPES])))

        class Types(Sym):
            pytype = dict

            def truth(self, interp):
                return True          # an empty mapping declares nothing either way

            def contains(self, interp, key):
                return mk_bool(has(str_z3(key)))

            def getitem(self, interp, key):
                if not interp.ctx.branch(has(str_z3(key))):
                    interp.raise_py(KeyError('key'))
                return interp.mk_enum(SY.SymbolType, ft(str_z3(key)))

            def method(self, interp, name, args, kw):
                if name == 'get':
                    if not interp.ctx.branch(has(str_z3(args[0]))):
                        return args[1] if len(args) > 1 else kw.get('default')
                    return self.getitem(interp, args[0])
                return NOTHANDLED
        b = h.interp.call(SY.SymbolTableBuilder, [Types()],
                          {'user_atts': given['user'].dict, 'env_atts': given['env'].dict,
                           'object_atts': given['object'].dict, 'admin_atts': given['admin'].dict,
                           'connect_atts': given['connect'].dict})
        t = ret(h, h.method(b, 'build'), 'build')
        a = h.str('name')
        q = mk_str((ns_under_test + '.',) + tuple(str_pieces(a)))
        s = look(h, t, q)
        g = given[ns_under_test]
        i = z3.Int('i')
        if s is None:
            h.check('an undefined attribute was not supplied',
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < g.n), LOWER(g.k(i)) != lo(a))))
            h.cover('absent')
            return
        w = h.get(s, 'value')
        # the index of the supplied value
        cands = []
        todo = [w.t] if isinstance(w, (SInt, SBool, SEnum)) else []
        if not todo and kind == 'bool':
            todo = list(h.ctx.assumed)
        seen = set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen or not z3.is_app(e):
                continue
            seen.add(e.get_id())
            if e.decl().eq(g.v):
                cands.append(e.arg(0))
            todo.extend(e.children())
        h.check('the value is one supplied for the namespace', len(cands) > 0, detail=repr(w))
        up = lo(a)
        ok = []
        for j in cands:
            vv = kept(h, w, g.val(j)) if kind == 'bool' else h.eq(w, g.val(j))
            ok.append(z3.And(0 <= j, j < g.n, LOWER(g.k(j)) == up, vv,
                             z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j), LOWER(g.k(i)) != up))))
        h.check('the value is the first one supplied under the name', z3.Or(ok))
        full = z3.Concat(zlit(ns_under_test + '.'), up)
        h.check('full name', str_z3(h.get(s, 'name')) == full)
        h.check('attribute name', str_z3(h.get(s, 'att_name')) == up)
        h.check('namespace', h.get(s, 'att_type') is dict(NS)[ns_under_test])
        h.check('declared or unknown type', enum_term(h.get(s, 'type')) ==
                z3.If(has(full), ft(full), z3.IntVal(SY.SymbolType.UNKNOWN.value)))
        h.cover('present')
    h.run(body)


for _ns, _ in NS:
    for _k in ('int', 'bool'):
        add_unit('C16', 'build, %s attributes with %s values' % (_ns, _k), lambda h, n=_ns, k=_k: _build(h, n, k))


@unit('C16', 'build, names outside the namespaces')
def _build_other(h):
    def body():
        given = {ns: Given(h, ns, 'int') for ns, _ in NS}
        b = h.interp.call(SY.SymbolTableBuilder, [], {'user_atts': given['user'].dict, 'env_atts': given['env'].dict,
                                                      'object_atts': given['object'].dict, 'admin_atts': given['admin'].dict,
                                                      'connect_atts': given['connect'].dict})
        t = ret(h, h.method(b, 'build'), 'build')
        q = h.str('probe')
        for ns, _ in NS:
            h.ctx.assume(z3.Not(z3.PrefixOf(zlit(ns + '.'), lo(q))))
        h.check('nothing else is defined', look(h, t, q) is None)
    h.run(body)


@unit('C16', 'mixed collection')
def _mixed(h):
    def body():
        n = z3.Int(h.ctx.name('n'))
        h.ctx.assume(n >= 0)
        pre = z3.Function(h.ctx.name('namespace'), I, S)
        nam = z3.Function(h.ctx.name('rest'), I, S)
        val = z3.Function(h.ctx.name('val'), I, I)
        bare = z3.Function(h.ctx.name('undotted'), I, B)

        def key(i):
            # every name is its part before the first dot, and either nothing else or a dot and the rest
            h.ctx.assume(z3.Not(z3.Contains(pre(i), zlit('.'))))
            if h.ctx.branch(bare(i)):
                s = mk_str([ZS(pre(i))])
            else:
                s = mk_str([ZS(pre(i)), '.', ZS(nam(i))])
            if isinstance(s, SStr):
                s.index_in = (d, i)
            return s
        i, j = z3.Ints('i j')
        h.ctx.assume(z3.ForAll([i], z3.Not(z3.Contains(pre(i), zlit('.')))))
        rng = z3.And(0 <= i, i < n, 0 <= j, j < n)
        h.ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng, pre(i) == pre(j), nam(i) == nam(j), bare(i) == bare(j)), i == j)))
        d = models.KDict(n, key, lambda k: SInt(val(k)), 'mixed')
        b = h.interp.call(SY.SymbolTableBuilder, [])
        o = h.method(b, 'load_mixed_att_val_dict', d)
        known = lambda k: z3.And(z3.Or([pre(k) == zlit(ns) for ns, _ in NS]), z3.Not(bare(k)))
        bad = z3.Exists([i], z3.And(0 <= i, i < n, z3.Not(known(i))))
        if o.raised:
            h.check('only names outside the namespaces are refused', bad)
            h.cover('refused')
            return
        h.check('names outside the namespaces are refused', z3.Not(bad))
        ns, _ = h.choose(NS)
        a = h.str('name')
        got = models.dict_get(h.interp, h.get(b, ns + '_atts'), a)
        if got is ABSENT:
            h.check('nothing supplied is lost', z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, pre(i) == zlit(ns)),
                                                                          nam(i) != str_z3(a))))
            h.cover('absent')
            return
        h.check('values are those supplied', isinstance(got, SInt) and got.t.decl().eq(val))
        k = got.t.arg(0)
        h.check('the value supplied under that qualified name',
                z3.And(0 <= k, k < n, pre(k) == zlit(ns), nam(k) == str_z3(a)))
        h.cover('present')
    h.run(body)


@unit('C16', 'forgetting values')
def _reset(h):
    def body():
        given = {ns: Given(h, ns, 'int') for ns, _ in NS}
        b = h.interp.call(SY.SymbolTableBuilder, [], {ns + '_atts': given[ns].dict for ns, _ in NS})
        ret(h, h.method(b, 'reset_values'), 'reset_values')
        t = ret(h, h.method(b, 'build'), 'build')
        h.check('nothing is defined', look(h, t, h.str('probe')) is None)
    h.run(body)
