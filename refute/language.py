"""Refuter of C01-C10 and C16: the real code against oracle.py."""
import base64
import itertools
from . import oracle as O
from .base import loop, require, Mismatch, tb

import hgpl.ast as A
import hgpl.symbols as SY
import hgpl.errors as E
import hgpl.interpreting as IN
import hgpl.parsing as P
import hgpl.semantics as SE
from hgpl.lexing import Token, TokenType, Lexer

RES = {A.ASTResult.TRUE.name: 'T', A.ASTResult.FALSE.name: 'F', A.ASTResult.UNDEF.name: 'U'}
OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET']
INTS = [0, 1, 2, 3, -1, 7, 100]
FLOATS = [0.0, 1.0, 1.5, -0.5, 2.0, 3.25]
STRS = ['', 'a', 'A', 'ab', '1', 'TRUE', 'user.a', ' ', 'b']
NAMES = ['a', 'b', 'ab', 'a_b', 'x1', '1x', '_u', 'role', 'user', 'age']
NSK = ['USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT']


def reset_ids():
    """Node ids are global and 16 bit wide in the encoding: start afresh so that encoding does not merely fail."""
    if '_last_id' in A.ASTNode.__dict__:
        A.ASTNode._last_id = -1


# ------------------------------------------------------------------------------------------------ trees
def rcase(rng, s):
    m = rng.randrange(4)
    return s if m < 2 else s.upper() if m == 2 else ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def tok_const(rng, kinds=('INT', 'FLOAT', 'STRING', 'NULL')):
    k = rng.choice(kinds)
    return (k, 0, {'INT': lambda: rng.choice(INTS), 'FLOAT': lambda: rng.choice(FLOATS),
                   'STRING': lambda: rng.choice(STRS), 'NULL': lambda: 'NULL'}[k]())


def leaf(t):
    return (O.NODE[t[0]], t, [])


def gen_att(rng, names):
    k = rng.choice(NSK if rng.random() < 0.4 else NSK[:2])
    return leaf((k, 0, rcase(rng, rng.choice(names))))


def gen_set(rng):
    return ('SetNode', ('LSET', 0, None), [leaf(tok_const(rng)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))])


def gen_operand(rng, names):
    r = rng.random()
    if r < 0.45:
        return gen_att(rng, names)
    if r < 0.8:
        return leaf(tok_const(rng))
    return gen_set(rng)


def gen_tree(rng, depth, names, badops=False):
    r = rng.random()
    if depth <= 0 or r < 0.3:
        r = rng.random()
        if r < 0.15:
            return leaf(('BOOL', 0, rng.choice(['TRUE', 'FALSE', 'UNDEF'])))
        if r < 0.3:
            return gen_att(rng, names)
        return ('OpNode', ('OP', 0, rng.choice(OPS)), [gen_operand(rng, names), gen_operand(rng, names)])
    if r < 0.45:
        return ('NotNode', ('NOT_OP', 0, 'NOT'), [gen_tree(rng, depth - 1, names)])
    return ('BoolOpNode', ('BOOL_OP', 0, rng.choice(['AND', 'OR'])),
            [gen_tree(rng, depth - 1, names), gen_tree(rng, depth - 1, names)])


def num_text(v):
    s = repr(v)
    return s


def to_text(rng, tree, loose=True):
    """Text of a tree, with random spacing, letter case and redundant parentheses."""
    def kw(s):
        return rcase(rng, s) if loose else s

    def sp():
        return rng.choice(['', '', ' ', '  ', '\t', '\n']) if loose else ''

    def opnd(t):
        k, tok, kids = t
        if k == 'SetNode':
            return '{' + sp() + (sp() + ',' + sp()).join(opnd(c) for c in kids) + sp() + '}'
        if k.endswith('AttNode'):
            return kw(O.PREFIX[tok[0]][:-1]) + '.' + tok[2]
        if tok[0] == 'STRING':
            return '"' + tok[2] + '"'
        if tok[0] == 'NULL':
            return kw('NULL')
        return num_text(tok[2])

    def go(t, ctx):
        """ctx: 0 policy, 1 term, 2 exp"""
        k, tok, kids = t
        if k == 'BoolOpNode':
            if tok[2] == 'OR':
                s, lvl = go(kids[0], 0) + ' ' + kw('OR') + ' ' + go(kids[1], 1), 0
            else:
                s, lvl = go(kids[0], 1) + ' ' + kw('AND') + ' ' + go(kids[1], 2), 1
        elif k == 'NotNode':
            c = kids[0]
            if (c[0] == 'BoolValNode' or c[0].endswith('AttNode')) and rng.random() < 0.7:
                s, lvl = kw('NOT') + ' ' + (kw(c[1][2]) if c[0] == 'BoolValNode' else opnd(c)), 2
            else:
                s, lvl = kw('NOT') + sp() + '(' + sp() + go(c, 0) + sp() + ')', 2
        elif k == 'OpNode':
            o = tok[2]
            word = o.isalpha()
            g = ' ' if word else sp()
            s, lvl = opnd(kids[0]) + g + (kw(o) if word else o) + (' ' if word else sp()) + opnd(kids[1]), 2
        elif k == 'BoolValNode':
            s, lvl = kw(tok[2]), 2
        else:
            s, lvl = opnd(t), 2
        if lvl < ctx or (loose and rng.random() < 0.08):
            s = '(' + sp() + s + sp() + ')'
        return s
    return sp() + go(tree, 0) + sp()


def real_token(t):
    return Token(TokenType[t[0]], t[1], t[2])


def real_tree(t):
    k, tok, kids = t
    cls = getattr(A, k)
    if k == 'SetNode':
        return cls(real_token(tok), Token(TokenType.RSET, tok[1] + 1), [real_tree(c) for c in kids])
    if not kids:
        return cls(real_token(tok))
    return cls(real_token(tok), *[real_tree(c) for c in kids])


def same_val(a, b):
    return type(a) is type(b) and a == b


def tree_of(node):
    """The tree returned by the code, as a tuple."""
    t = node.token
    return (type(node).__name__, (t.type.name, t.pos, t.value), [tree_of(c) for c in node.children()])


def trees_same(a, b):
    return a[0] == b[0] and a[1][0] == b[1][0] and a[1][1] == b[1][1] and same_val(a[1][2], b[1][2]) and \
        len(a[2]) == len(b[2]) and all(trees_same(x, y) for x, y in zip(a[2], b[2]))


# ------------------------------------------------------------------------------------------------ attributes
class Other:
    pass


def gen_value(rng):
    """(oracle kind, oracle value, python value, fitting types)"""
    k = rng.choice(['none', 'bool', 'bool', 'tri', 'int', 'int', 'float', 'str', 'str', 'null', 'set', 'set', 'list', 'other'])
    if k == 'none':
        return None, None, None, []
    if k == 'bool':
        b = rng.random() < 0.5
        return 'bool', 'T' if b else 'F', b, ['BOOL']
    if k == 'tri':
        r = rng.choice(list(A.ASTResult))
        return 'bool', RES[r.name], r, ['BOOL']
    if k == 'int':
        v = rng.choice(INTS)
        return 'num', v, v, ['INT', 'FLOAT']
    if k == 'float':
        v = rng.choice(FLOATS)
        return 'num', v, v, ['INT', 'FLOAT']
    if k == 'str':
        v = rng.choice(STRS)
        return 'str', v, v, ['STRING']
    if k == 'null':
        return 'nullv', None, A.ASTNullVal(), []
    if k == 'other':
        return 'other', None, rng.choice([Other(), b'a', (1,), {'a': 1}, 1j]), []
    n = rng.choice([0, 1, 1, 2, 2, 3])
    ts = [tok_const(rng) for _ in range(n)]
    vals = [A.ASTNullVal() if t[0] == 'NULL' else t[2] for t in ts]
    o = frozenset(O.const(t).v for t in ts)
    return 'set', o, (set(vals) if k == 'set' else vals), ['SET']


TYPES = ['INT', 'FLOAT', 'STRING', 'BOOL', 'SET', 'UNKNOWN', 'CUSTOM']


def gen_attrs(rng, names, density=0.7):
    """(oracle attrs, list of (kind, name, python value, type))"""
    attrs, defs = {}, []
    for k in NSK:
        for n in names:
            if rng.random() > (density if k in NSK[:2] else density / 2):
                continue
            vk, ov, pv, fits = gen_value(rng)
            ty = rng.choice(fits) if fits and rng.random() < 0.85 else rng.choice(TYPES)
            attrs[O.PREFIX[k] + n.lower()] = (vk, ov, ty)
            defs.append((k, rcase(rng, n), pv, ty))
    return attrs, defs


def make_table(rng, defs):
    if rng.random() < 0.5:
        st = SY.SymbolTable()
        for k, n, v, ty in defs:
            st.define(SY.Symbol(n, TokenType[k], SY.SymbolType[ty], v))
        return st
    types = {O.PREFIX[k] + n.lower(): SY.SymbolType[ty] for k, n, v, ty in defs}
    per = {k: {} for k in NSK}
    for k, n, v, ty in defs:
        per[k][n] = v
    return SY.SymbolTableBuilder(types, user_atts=per['USR_ATT'], env_atts=per['ENV_ATT'], object_atts=per['OBJ_ATT'],
                                 admin_atts=per['ADM_ATT'], connect_atts=per['CON_ATT']).build()


def snap_table(st):
    return sorted((n, id(st.lookup(n)), st.lookup(n).type.name, id(st.lookup(n).value) if not isinstance(
        st.lookup(n).value, (int, float, str)) else st.lookup(n).value, repr(sorted(map(repr, st.lookup(n).value))) if isinstance(
            st.lookup(n).value, (set, list)) else '', st.lookup(n).att_name, st.lookup(n).att_type.name)
        for n in list(st.names()))


def run_eval(it, *args):
    try:
        return ('ok', it.evaluate(*args))
    except E.InterpreterWarning as e:
        return ('warning', e)
    except E.InterpreterError as e:
        return ('error', e)
    except Exception as e:
        return ('exc', e)


def res_name(r):
    return RES.get(r.name) if isinstance(r, A.ASTResult) else None


def describe(tree, defs, text=None):
    return dict(policy=text or repr(tree), attributes=repr([(O.PREFIX[k] + n, v, ty) for k, n, v, ty in defs]))


def check_eval(prop, it, tree, attrs, defs, table, level, text, history=''):
    """One evaluation against the oracle."""
    args = (table,) if level == 'absent' else (table, level)
    out = run_eval(it, *args)
    info = describe(tree, defs, text)
    if history:
        info['history'] = history
    info['level'] = repr(level)
    try:
        v, problems = O.evaluate(tree, attrs)
        err = False
    except O.EvalFail:
        err = True
    if err:
        require(out[0] == 'error', 'a non-boolean operand of AND, OR or NOT must be an interpreter error',
                outcome=repr(out), **info)
        return
    ws = it.get_warnings()
    if level not in ('absent', None) and problems and E.ErrorType.WARN >= level:
        if prop in ('C05', 'C04'):
            require(out[0] == 'warning', 'a warning that reaches the threshold must be raised', outcome=repr(out), **info)
            require(len(ws) > 0 and ws[0] is out[1] or (ws and str(ws[0]) == str(out[1]) and ws[0].pos == out[1].pos),
                    'the first warning must be the one raised', outcome=repr(out), **info)
        else:
            require(out[0] in ('warning',), 'unexpected outcome of an evaluation with threshold', outcome=repr(out), **info)
    else:
        require(out[0] == 'ok', 'evaluation must return a result', outcome=repr(out) + (tb(out[1]) if out[0] == 'exc' else ''), **info)
        want = O.truth(v)
        got = res_name(out[1])
        require(got == want, 'wrong result of evaluation', expected=repr(want), got=repr(out[1]), **info)
        if got is not None:
            require(bool(out[1]) == (want == 'T'), 'only TRUE grants', got=repr(out[1]), **info)
    if prop in ('C05', 'C04'):
        for w in ws:
            require(isinstance(w, E.InterpreterWarning) and w.type == E.ErrorType.WARN, 'warnings must have severity WARN',
                    warning=repr(w), **info)
            require(w.policy_text == text, 'a warning must carry the policy text', warning=repr(w.policy_text), **info)
        require(len(ws) >= problems, 'every problem must be recorded as a warning', warnings=repr([str(w) for w in ws]),
                problems=str(problems), **info)
        if not problems:
            require(not ws, 'no warning without a problem', warnings=repr([str(w) for w in ws]), **info)


def ensure_interp(rng, tree, text):
    """Interpreter over the given tree, from text through the parser or directly."""
    m = rng.randrange(3)
    if m == 0:
        return IN.Interpreter(P.Parser(Lexer(text))), None
    if m == 1:
        ast = P.Parser(Lexer(text)).parse()
        return IN.Interpreter(ast, text), ast
    ast = real_tree(tree)
    return IN.Interpreter(ast, text), ast


LEVELS = ['absent', None, E.ErrorType.NONE, E.ErrorType.INFO, E.ErrorType.WARN, E.ErrorType.ERROR, E.ErrorType.CRIT]


def random_eval(prop, depth):
    def random_evaluation(rng, st):
        names = rng.sample(NAMES, rng.choice([1, 2, 3]))
        tree = gen_tree(rng, rng.choice(depth), names)
        if prop == 'C02':
            tree = ('OpNode', ('OP', 0, rng.choice(OPS)), [gen_operand(rng, names), gen_operand(rng, names)])
        if prop == 'C03' and rng.random() < 0.4:
            tree = gen_att(rng, names)
        text = to_text(rng, tree)
        attrs, defs = gen_attrs(rng, names)
        table = make_table(rng, defs)
        if rng.random() < 0.08:
            attrs, defs, table = {}, [], None
        level = rng.choice(LEVELS) if prop == 'C05' else 'absent'
        if prop in ('C01', 'C02', 'C03', 'C04') and rng.random() < 0.1:
            tree2 = gen_tree(rng, 1, names)
            bad = rng.choice([leaf(tok_const(rng)), gen_set(rng)])
            if prop == 'C01':
                kids = [tree2, bad]
                rng.shuffle(kids)
                tree = ('BoolOpNode', ('BOOL_OP', 0, rng.choice(['AND', 'OR'])), kids) if rng.random() < 0.7 else \
                    ('NotNode', ('NOT_OP', 0, 'NOT'), [bad])
                it = IN.Interpreter(real_tree(tree), 'policy')
                check_eval(prop, it, tree, attrs, defs, table, level, 'policy')
                st.case(('bad', repr(tree), repr(attrs)))
                return
        it, _ = ensure_interp(rng, tree, text)
        check_eval(prop, it, tree, attrs, defs, table, level, text)
        st.case((text, repr(attrs)), text)
    return random_evaluation


def all_values():
    """Every kind of operand value, small."""
    consts = [('INT', 0, 0), ('INT', 0, 1), ('INT', 0, 2), ('INT', 0, -1), ('FLOAT', 0, 0.0), ('FLOAT', 0, 1.0), ('FLOAT', 0, 1.5),
              ('STRING', 0, ''), ('STRING', 0, 'a'), ('STRING', 0, 'A'), ('STRING', 0, '1'), ('NULL', 0, 'NULL')]
    sets = [[], [('INT', 0, 1)], [('INT', 0, 0)], [('INT', 0, 1), ('INT', 0, 2)], [('FLOAT', 0, 1.0)], [('STRING', 0, 'a')],
            [('STRING', 0, '')], [('NULL', 0, 'NULL')], [('NULL', 0, 'NULL'), ('INT', 0, 1)], [('STRING', 0, 'a'), ('INT', 0, 1)],
            [('INT', 0, 1), ('INT', 0, 1)], [('STRING', 0, 'a'), ('STRING', 0, 'ab')]]
    ops = [leaf(c) for c in consts] + [('SetNode', ('LSET', 0, None), [leaf(c) for c in s]) for s in sets]
    vals = [(None, None, None, 'INT'), (None, None, None, 'UNKNOWN')]
    for b in (True, False):
        vals.append(('bool', 'T' if b else 'F', b, 'BOOL'))
    vals.append(('bool', 'U', A.ASTResult.UNDEF, 'BOOL'))
    vals.append(('bool', 'T', True, 'INT'))
    for v in (0, 1, 2, -1, 1.0, 1.5, 0.0):
        vals += [('num', v, v, 'INT'), ('num', v, v, 'FLOAT')]
    vals += [('num', 1, 1, 'STRING'), ('num', 1, 1, 'BOOL'), ('num', 1, 1, 'UNKNOWN'), ('num', 1, 1, 'CUSTOM'), ('num', 1, 1, 'SET')]
    for v in ('', 'a', '1'):
        vals.append(('str', v, v, 'STRING'))
    vals += [('str', 'a', 'a', 'SET'), ('str', 'a', 'a', 'UNKNOWN'), ('str', '1', '1', 'INT'), ('nullv', None, A.ASTNullVal(), 'STRING'),
             ('nullv', None, A.ASTNullVal(), 'SET'), ('other', None, (1,), 'SET'), ('other', None, b'a', 'STRING')]
    for s in sets:
        pv = [A.ASTNullVal() if t[0] == 'NULL' else t[2] for t in s]
        ov = frozenset(O.const(t).v for t in s)
        vals += [('set', ov, set(pv), 'SET'), ('set', ov, list(pv), 'SET')]
    vals += [('set', frozenset([1]), {1}, 'INT'), ('set', frozenset([1]), [1], 'UNKNOWN')]
    return ops, vals


def every_comparison(prop):
    def every_comparison_of_small_values(st):
        ops, vals = all_values()
        left = [(o, None) for o in ops] + [(leaf(('USR_ATT', 0, 'l')), v) for v in vals]
        right = [(o, None) for o in ops] + [(leaf(('OBJ_ATT', 0, 'r')), v) for v in vals]
        for (l, lv) in left:
            for (r, rv) in right:
                attrs, defs = {}, []
                for pre, k, n, v in (('user.l', 'USR_ATT', 'l', lv), ('object.r', 'OBJ_ATT', 'r', rv)):
                    if v is not None:
                        attrs[pre] = (v[0], v[1], v[3])
                        defs.append((k, n, v[2], v[3]))
                table = SY.SymbolTable()
                for k, n, v, ty in defs:
                    table.define(SY.Symbol(n, TokenType[k], SY.SymbolType[ty], v))
                for op in OPS:
                    tree = ('OpNode', ('OP', 0, op), [l, r])
                    it = IN.Interpreter(real_tree(tree), 'policy')
                    check_eval(prop, it, tree, attrs, defs, table, 'absent', 'policy')
                    st.case((op, repr(l), repr(r), repr(lv), repr(rv)))
    return every_comparison_of_small_values


def every_boolean_tree(st):
    leaves = [leaf(('BOOL', 0, w)) for w in ('TRUE', 'FALSE', 'UNDEF')]
    for b in ('t', 'f', 'u', 'n', 'missing'):
        leaves.append(leaf(('USR_ATT', 0, b)))
    leaves.append(('OpNode', ('OP', 0, '='), [leaf(('INT', 0, 1)), leaf(('INT', 0, 1))]))
    leaves.append(('OpNode', ('OP', 0, '>'), [leaf(('INT', 0, 1)), leaf(('INT', 0, 1))]))
    leaves.append(('OpNode', ('OP', 0, '='), [leaf(('INT', 0, 1)), leaf(('STRING', 0, 'a'))]))
    defs = [('USR_ATT', 't', True, 'BOOL'), ('USR_ATT', 'f', False, 'BOOL'), ('USR_ATT', 'u', A.ASTResult.UNDEF, 'BOOL'),
            ('USR_ATT', 'n', 5, 'INT')]
    attrs = {'user.t': ('bool', 'T', 'BOOL'), 'user.f': ('bool', 'F', 'BOOL'), 'user.u': ('bool', 'U', 'BOOL'),
             'user.n': ('num', 5, 'INT')}
    table = SY.SymbolTable()
    for k, n, v, ty in defs:
        table.define(SY.Symbol(n, TokenType[k], SY.SymbolType[ty], v))

    def nt(x):
        return ('NotNode', ('NOT_OP', 0, 'NOT'), [x])

    def bo(o, x, y):
        return ('BoolOpNode', ('BOOL_OP', 0, o), [x, y])
    l1 = leaves + [nt(x) for x in leaves]
    trees = list(l1)
    trees += [bo(o, x, y) for o in ('AND', 'OR') for x in l1 for y in l1]
    core = leaves[:3]
    l2 = [bo(o, x, y) for o in ('AND', 'OR') for x in core for y in core]
    trees += [bo(o, x, y) for o in ('AND', 'OR') for x in l2 for y in core + l2] + [bo(o, x, y) for o in ('AND', 'OR') for x in core for y in l2]
    trees += [nt(nt(x)) for x in leaves] + [nt(x) for x in l2]
    for t in trees:
        it = IN.Interpreter(real_tree(t), 'policy')
        check_eval('C01', it, t, attrs, defs, table, 'absent', 'policy')
        st.case(repr(t))


def every_truth_table(st):
    R = A.ASTResult
    for a in R:
        x = RES[a.name]
        require(bool(a) == (x == 'T'), 'only TRUE is true', value=repr(a))
        require(RES[R.tri_not(a).name] == O.NOT(x), 'NOT table', value=repr(a))
        for b in R:
            y = RES[b.name]
            require(RES[(a & b).name] == O.AND(x, y) and RES[R.tri_and(a, b).name] == O.AND(x, y), 'AND table', value=repr((a, b)))
            require(RES[(a | b).name] == O.OR(x, y) and RES[R.tri_or(a, b).name] == O.OR(x, y), 'OR table', value=repr((a, b)))
            st.case((a.name, b.name))


def shape(node):
    t = node.token
    return (type(node).__name__, id(node), id(t), t.type.name, t.pos, repr(t.value), node.id,
            [shape(c) for c in node.children()])


def random_history(prop):
    def random_history_of_evaluations(rng, st):
        """Several evaluations of one tree by one or two interpreters with different tables."""
        names = rng.sample(NAMES, rng.choice([1, 2, 2]))
        tree = gen_tree(rng, rng.choice([0, 1, 2, 3]), names)
        text = to_text(rng, tree)
        ast = P.Parser(Lexer(text)).parse() if rng.random() < 0.5 else real_tree(tree)
        its = [IN.Interpreter(ast, text)]
        if rng.random() < 0.4:
            its.append(IN.Interpreter(ast, text))
        before = shape(ast)
        hist = []
        tabs = []
        for i in range(rng.choice([2, 3, 4, 5])):
            it = rng.choice(its)
            if tabs and rng.random() < 0.25:
                attrs, defs, table = rng.choice(tabs)
            else:
                attrs, defs = gen_attrs(rng, names, rng.choice([0.2, 0.6, 0.9]))
                table = make_table(rng, defs)
                if rng.random() < 0.15:
                    attrs, defs, table = {}, [], None
                tabs.append((attrs, defs, table))
            if table is not None and rng.random() < 0.2 and defs:
                # the caller changes a value of the table between evaluations
                j = rng.randrange(len(defs))
                k, n, v, ty = defs[j]
                vk, ov, pv, fits = gen_value(rng)
                attrs = dict(attrs)
                defs = list(defs)
                attrs[O.PREFIX[k] + n.lower()] = (vk, ov, ty)
                defs[j] = (k, n, pv, ty)
                table.set_value(O.PREFIX[k] + n, pv)
                tabs = [(attrs, defs, table) if t[2] is table else t for t in tabs]
            level = rng.choice(LEVELS) if rng.random() < 0.4 else 'absent'
            s0 = snap_table(table) if table is not None else None
            w_before = [(x, x.get_warnings()) for x in its if x is not it]
            check_eval(prop, it, tree, attrs, defs, table, level, text, history='%d earlier evaluations: %s' % (i, hist[-3:]))
            for x, w in w_before:
                require(x.get_warnings() == w, 'warnings of another interpreter changed', **describe(tree, defs, text))
            if s0 is not None:
                require(snap_table(table) == s0, 'evaluation must not change the attribute table', **describe(tree, defs, text))
            require(shape(ast) == before, 'evaluation must not change the policy tree', **describe(tree, defs, text))
            hist.append(describe(tree, defs, text)['attributes'])
        st.case((text, len(hist), repr(hist)[:500]), text)
    return random_history_of_evaluations


def reference_names(st):
    """All pairs of namespaces, names differing in case only or by one character."""
    for k in NSK:
        for k2 in NSK:
            for n, n2 in (('a', 'a'), ('a', 'A'), ('A', 'a'), ('Ab_1', 'aB_1'), ('a', 'b'), ('a', 'a_'), ('ab', 'a')):
                for ty, pv, vk, ov in (('INT', 3, 'num', 3), ('BOOL', True, 'bool', 'T'), ('BOOL', False, 'bool', 'F'), ('FLOAT', 3, 'num', 3),
                                       ('INT', 3.0, 'num', 3.0), ('UNKNOWN', 3, 'num', 3), ('STRING', 3, 'num', 3), ('INT', None, None, None)):
                    attrs = {O.PREFIX[k2] + n2.lower(): (vk, ov, ty)}
                    defs = [(k2, n2, pv, ty)]
                    for tree in (leaf((k, 0, n)), ('OpNode', ('OP', 0, '='), [leaf((k, 0, n)), leaf(('INT', 0, 3))])):
                        table = SY.SymbolTable()
                        table.define(SY.Symbol(n2, TokenType[k2], SY.SymbolType[ty], pv))
                        it = IN.Interpreter(real_tree(tree), 'policy')
                        check_eval('C05', it, tree, attrs, defs, table, 'absent', 'policy')
                        st.case((k, k2, n, n2, ty, repr(pv), tree[0]))


# ------------------------------------------------------------------------------------------------ parser, lexer
SKINDS = [('INT', 1), ('STRING', 'a'), ('USR_ATT', 'a'), ('BOOL', 'TRUE'), ('OP', '='), ('BOOL_OP', 'AND'), ('BOOL_OP', 'OR'),
          ('NOT_OP', 'NOT'), ('LSET', None), ('RSET', None), ('COMMA', None), ('LPARN', None), ('RPARN', None), ('NULL', 'NULL'),
          ('FLOAT', 1.5), ('CON_ATT', 'b'), ('OP', 'IN')]


def check_parse(toks, text='policy', parser=None):
    info = dict(tokens=repr(toks))
    try:
        want = O.parse(toks)
    except O.ParseFail:
        want = None
    rt = [real_token(t) for t in toks]
    orig = list(rt)
    try:
        p = P.Parser(rt, text)
        got = p.parse()
    except E.ParserError as e:
        got = e
        if want is None:
            check_error(e, text, E.ParserError, info, anypos=True)
    except Exception as e:
        raise Mismatch('parsing must not fail with anything but a syntax error', error=tb(e), **info)
    if want is None:
        require(isinstance(got, E.ParserError), 'a token sequence outside the grammar must be refused', got=repr(got), **info)
    else:
        require(isinstance(got, A.ASTNode), 'a token sequence of the grammar must be accepted', got=repr(got), **info)
        require(trees_same(tree_of(got), want), 'the tree must have the structure of the grammar', got=repr(tree_of(got)), want=repr(want), **info)
    require(rt == orig, 'the token list must not be changed', **info)
    # same parser again
    try:
        again = p.parse()
    except E.ParserError:
        again = None
    except Exception as e:
        raise Mismatch('parsing again must not fail with anything but a syntax error', error=tb(e), **info)
    if want is None:
        require(again is None, 'the outcome must not depend on earlier use of the parser', **info)
    else:
        require(again is not None and trees_same(tree_of(again), want), 'the outcome must not depend on earlier use of the parser', **info)
    return want


def number(toks):
    return [(k, i, v) for i, (k, v) in enumerate(toks)]


def short_sequences(maxlen):
    def every_short_token_sequence(st):
        for n in range(maxlen + 1):
            for seq in itertools.product(SKINDS if n <= 2 else SKINDS[:13], repeat=n):
                toks = number([('START', None)] + list(seq) + [('END', None)])
                check_parse(toks)
                st.case(tuple(k for k, _, _ in toks))
    return every_short_token_sequence


def tokens_of(rng, tree):
    return O.lex(to_text(rng, tree))


def random_tokens(rng, st):
    names = ['a', 'b']
    toks = [(k, v) for k, _, v in tokens_of(rng, gen_tree(rng, rng.choice([0, 1, 2, 3, 4]), names))][1:-1]
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        m = rng.randrange(4)
        i = rng.randrange(len(toks) + 1)
        if m == 0:
            toks.insert(i, rng.choice(SKINDS))
        elif m == 1 and toks:
            del toks[i % len(toks)]
        elif m == 2 and toks:
            toks[i % len(toks)] = rng.choice(SKINDS)
        elif m == 3 and len(toks) > 1:
            j = rng.randrange(len(toks))
            i = i % len(toks)
            toks[i], toks[j] = toks[j], toks[i]
    full = number([('START', None)] + toks + [('END', None)])
    check_parse(full)
    st.case(repr([t[0] for t in full]), full)


def check_error(e, text, cls, info, anypos=False):
    require(isinstance(e, cls), 'wrong kind of error', error=repr(e), **info)
    require(e.policy_text == text, 'the error must carry the policy text', error=repr(e.policy_text), **info)
    if anypos:
        return
    require(isinstance(e.pos, int) and 0 <= e.pos <= len(text), 'the position must lie within the text', pos=repr(e.pos), **info)
    want = text[max(0, e.pos - 10):e.pos + 11]
    require((e.near() or '') == want, 'the excerpt must be the ten characters around the position', got=repr(e.near()), want=repr(want), **info)
    for k in (0, 1, 3, 50):
        w = text[max(0, e.pos - k):e.pos + k + 1]
        require((e.near(k) or '') == w, 'excerpt of given length', got=repr(e.near(k)), want=repr(w), **info)
    try:
        s = str(e)
    except Exception as x:
        raise Mismatch('an error must be printable', error=tb(x), **info)
    require(not text or ("near '%s'" % want) in s, 'the printed error must show the excerpt', got=s, **info)


def tok_tuple(t):
    return (t.type.name, t.pos, t.value)


def toks_same(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and x[1] == y[1] and same_val(x[2], y[2]) for x, y in zip(a, b))


def check_text(text, stepwise=False):
    """C07, C08 and (through parsing) C06 on one text."""
    info = dict(text=repr(text))
    try:
        want = O.lex(text)
    except O.LexFail:
        want = None
    lx = Lexer(text)
    err = None
    got = []
    try:
        if stepwise:
            while True:
                t = lx.next()
                if t is None:
                    break
                got.append(tok_tuple(t))
                require(tok_tuple(lx.current()) == got[-1], 'current() must be the token just read', **info)
                if len(got) > len(text) + 5:
                    raise Mismatch('next() does not end', **info)
        else:
            lx.tokenize()
    except E.LexerError as e:
        err = e
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch('lexing must not fail with anything but a lexical error', error=tb(e), **info)
    if want is None:
        require(err is not None, 'text that is not a sequence of tokens must be refused', got=repr([tok_tuple(t) for t in lx.toke_list()]), **info)
        check_error(err, text, E.LexerError, info)
        return
    require(err is None, 'a sequence of tokens must be accepted', error=repr(err), **info)
    toks = [tok_tuple(t) for t in lx.toke_list()]
    require(toks_same(toks, want), 'wrong tokens', got=repr(toks), want=repr(want), **info)
    if stepwise:
        require(toks_same(got, want[1:]), 'next() must return the tokens in order', got=repr(got), want=repr(want), **info)
    atts = [tok_tuple(t) for t in lx.att_list()]
    require(toks_same(atts, [t for t in want if t[0] in O.ATTS]), 'wrong list of attribute tokens', got=repr(atts), **info)
    require(lx.token_string() == ' '.join(t[0] for t in want), 'token_string()', got=lx.token_string(), **info)
    require(lx.policy() == text, 'policy()', **info)
    lx.tokenize()
    require(lx.next() is None, 'nothing after the end marker', **info)
    toks = [tok_tuple(t) for t in lx.toke_list()]
    require(toks_same(toks, want), 'exactly one end marker', got=repr(toks), want=repr(want), **info)
    # C08/C06: parsing the text
    try:
        tree = O.parse(want)
    except O.ParseFail:
        tree = None
    try:
        node = P.Parser(Lexer(text)).parse()
    except E.ParserError as e:
        require(tree is None, 'a policy of the language must be accepted', error=repr(e), **info)
        check_error(e, text, E.ParserError, info)
    except Exception as e:
        raise Mismatch('parsing must not fail with anything but a policy error', error=tb(e), **info)
    else:
        require(tree is not None, 'text outside the language must be refused', got=repr(tree_of(node)), **info)
        require(trees_same(tree_of(node), tree), 'wrong tree', got=repr(tree_of(node)), want=repr(tree), **info)


PIECES = ['user', 'object', 'env', 'admin', 'connect', '.', 'a', 'b_1', '_', '1', '23', '-', '-4', '1.5', '0', '"', '"x y"', '""', '=', '!', '!=',
          '<', '>', '<=', '>=', '{', '}', '(', ')', ',', ' ', '\t', '\n', 'and', 'OR', 'Not', 'in', 'SUBSET', 'true', 'FALSE', 'undef', 'NULL', 'é',
          '²', '٣', '\x7f', '#', 'USER.', 'x', 'user.a', 'Object.B', '1.2.3', '5.', '\xa0', '—', '\'', '\\', '==', 'ſ', '9999999999999999999999',
          '.5', '00', '-0', '"a\tb"', '"a', 'nul', 'nulll', 'in1', 'user.in', 'user.1', 'ENV._x', 'connect.a.b', '\x1c', '\ufeff']


def random_text(rng, st):
    m = rng.random()
    if m < 0.5:
        text = ''.join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8, 12])))
    else:
        text = to_text(rng, gen_tree(rng, rng.choice([0, 1, 2, 3]), NAMES))
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            i = rng.randrange(len(text) + 1)
            k = rng.randrange(3)
            if k == 0:
                text = text[:i] + rng.choice(PIECES) + text[i:]
            elif k == 1:
                text = text[:i] + text[i + rng.choice([1, 2, 5]):]
            else:
                text = text[:i]
    check_text(text, rng.random() < 0.3)
    st.case(text, text)


def short_texts(st):
    alpha = ['a', 'user', '.', '1', '-', '"', '=', '!', '<', '{', '(', ' ', 'and', 'null', '_', ',', 'é', '²', '\t', '#']
    for n in range(4):
        for c in itertools.product(alpha, repeat=n):
            check_text(''.join(c), n == 2)
            st.case(c)
    for a in PIECES:
        for b in PIECES:
            check_text(a + b)
            check_text('user.x = ' + a + b)
            st.case((a, b))
    for i in list(range(0, 0x250)) + [0x2028, 0x3000, 0x1680, 0x660, 0x663, 0x2070, 0x2460, 0x4e00, 0x1d7d8, 0xff11, 0x17f, 0x212a, 0x130]:
        c = chr(i)
        for t in (c, 'a' + c, '"' + c + '"', '1' + c, 'user.' + c, 'user.a' + c + '= 1', '-' + c, 'and' + c):
            check_text(t)
        st.case(('chr', i))


def reuse_lexer(st):
    """Parsers over the same lexer, and lexers advanced before being handed over."""
    for text in ('user.a = 1', 'TRUE', '', 'NOT user.b AND (1 = 2 OR FALSE)', 'user.a ='):
        want = O.lex(text)
        for k in range(len(want) + 2):
            lx = Lexer(text)
            for _ in range(k):
                lx.next()
            try:
                t1 = tree_of(P.Parser(lx).parse())
            except E.ParserError:
                t1 = None
            try:
                t2 = tree_of(P.Parser(lx).parse())
            except E.ParserError:
                t2 = None
            try:
                w = O.parse(want)
            except O.ParseFail:
                w = None
            for t in (t1, t2):
                require((t is None) == (w is None) and (t is None or trees_same(t, w)), 'parsing with a used lexer', text=repr(text), k=str(k))
            st.case((text, k))


# ------------------------------------------------------------------------------------------------ type checking
def issue_of(e):
    return (e.type.name, e.token.pos if e.token is not None else None)


def check_types(tree, text, tc=None, ast=None):
    info = dict(policy=text)
    want, types = O.typecheck(tree)
    wl = [(s, t[1]) for s, t in want]

    def verify(tc, what):
        got = tc.get_issues()
        gl = [issue_of(e) for e in got]
        require(gl == wl, 'wrong reports of type checking' + what, got=repr([(issue_of(e), e.message) for e in got]), want=repr(want), **info)
        for e in got:
            require(isinstance(e, E.TypeCheckerError) and e.policy_text == text and
                    isinstance(e, E.TypeCheckerWarning) == (e.type == E.ErrorType.WARN), 'kind of report', got=repr(e), **info)
        require([issue_of(e) for e in tc.get_errors()] == [x for x in wl if x[0] == 'ERROR'], 'get_errors()', **info)
        require([issue_of(e) for e in tc.get_warnings()] == [x for x in wl if x[0] == 'WARN'], 'get_warnings()', **info)
        res = 'ERROR' if any(x[0] == 'ERROR' for x in wl) else 'WARN' if wl else 'PASS'
        require(tc.get_result().name == res, 'verdict', got=repr(tc.get_result()), want=res, **info)
        st = tc.get_symbol_table()
        require(sorted(st.names()) == sorted(types), 'attribute inventory', got=repr(sorted(st.names())), want=repr(sorted(types)), **info)
        for n, ty in types.items():
            require(st.lookup_type(n).name == ty, 'type of an attribute', name=n, got=repr(st.lookup_type(n)), want=ty, **info)
            require(O.PREFIX[st.lookup_att_type(n).name] + st.lookup_att_name(n) == n, 'inventory entry', name=n, **info)
    levels = [None] + list(E.ErrorType) + [None]
    require(tc.get_result().name == 'NONE', 'verdict before checking', got=repr(tc.get_result()), **info)
    for lv in levels:
        try:
            r = tc.check() if lv is None else tc.check(lv)
            exc = None
        except E.TypeCheckerError as e:
            exc = e
        except Exception as e:
            raise Mismatch('type checking must not fail', error=tb(e), **info)
        lim = E.ErrorType.CRIT if lv is None else lv
        first = next((x for x in wl if E.ErrorType[x[0]] >= lim), None)
        verify(tc, ' with threshold %s' % lv)
        if first is None:
            require(exc is None, 'nothing to raise', got=repr(exc), level=repr(lv), **info)
            require([issue_of(e) for e in r] == wl, 'reports returned', **info)
        else:
            require(exc is not None and issue_of(exc) == first, 'the first report reaching the threshold must be raised',
                    got=repr(exc), want=repr(first), level=repr(lv), **info)


def typecheck_text(rng, text):
    tree = O.parse(O.lex(text))
    tc = SE.TypeChecker(P.Parser(Lexer(text))) if rng is None or rng.random() < 0.6 else SE.TypeChecker(P.Parser(Lexer(text)).parse(), text)
    check_types(tree, text, tc)


def random_typecheck(rng, st):
    names = rng.sample(NAMES[:4], rng.choice([1, 1, 2, 3]))
    tree = gen_tree(rng, rng.choice([0, 1, 2, 2, 3]), names)
    text = to_text(rng, tree)
    typecheck_text(rng, text)
    st.case(text, text)


def every_typecheck(st):
    ops = ['1', '1.5', '"a"', 'NULL', '{1}', '{}', 'user.a', 'user.b', 'object.a', 'USER.A']
    for op in OPS:
        for l in ops:
            for r in ops:
                typecheck_text(None, '%s %s %s' % (l, op, r))
                st.case((l, op, r))
    firsts = ['user.a = 1', 'user.a > 1.5', 'user.a = "x"', 'user.a = {1}', 'user.a IN {1}', 'user.a = NULL', 'user.a', 'object.a = 1',
              'user.A = 2', '"s" = user.a', 'user.a SUBSET {1}', 'user.a < {1}', 'user.b = "x" AND user.a = user.b', 'NOT (user.a = 1)']
    for f in firsts:
        for op in OPS:
            for r in ops:
                for s in ('%s AND user.a %s %s' % (f, op, r), '%s OR %s %s user.a' % (f, r, op), 'user.b = 1 AND %s AND user.a %s user.b' % (f, op)):
                    typecheck_text(None, s)
                    st.case(s)


# ------------------------------------------------------------------------------------------------ encoding
def gen_codec_tree(rng):
    names = NAMES + ['name' * 5, 'é', 'x_' * 30]
    tree = gen_tree(rng, rng.choice([0, 1, 2, 3]), names)
    pos = [0]

    def place(t):
        pos[0] = rng.choice([0, pos[0] + 1, rng.randrange(65536)])
        k, tok, kids = t
        v = tok[2]
        r = rng.random()
        if tok[0] == 'INT' and r < 0.5:
            v = rng.choice([0, 1, -1, 2**31 - 1, -2**31, 2**31, 2**63, 255, 256, 65536, rng.randrange(-2**31, 2**31)])
        elif tok[0] == 'FLOAT' and r < 0.5:
            v = rng.choice([0.1, 1e300, -1.5e-300, 16777217.0, 3.3333333333333335, 1e22, rng.uniform(-1e6, 1e6), -0.0, 2.0**53 + 1])
        elif tok[0] == 'STRING' and r < 0.5:
            v = rng.choice(['', 'é', 'x' * 255, 'x' * 256, '日本', '\x00', 'a\x00', ' a ', '\U0001f600', 'x' * 70000 if r < 0.02 else 'xy', 'None', '\u0301'])
        return (k, (tok[0], pos[0], v), [place(c) for c in kids])
    return place(tree)


def enc(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def check_codec(tree, last=None, used=False, info=None):
    reset_ids()
    if last is not None:
        A.ASTNode._last_id = last
    node = real_tree(tree)
    info = dict(tree=repr(tree), ids='ids start at %r' % last)
    if used:
        try:
            IN.Interpreter(node, 'p').evaluate(SY.SymbolTable())
        except E.InterpreterError:
            pass
    done = 0
    for b64 in (False, True, None):
        data, e = enc(lambda: A.ASTEncoder.encode(node) if b64 is None else A.ASTEncoder.encode(node, b64))
        require(trees_same(tree_of(node), tree), 'encoding must not change the tree', **info)
        if e is not None:
            continue
        done += 1
        if b64:
            require(base64.b64decode(data) == A.ASTEncoder.encode(node), 'Base64 form', **info)
        back, e = enc(lambda: A.ASTEncoder.decode(data) if b64 is None else A.ASTEncoder.decode(data, b64))
        require(e is None, 'decoding of encoded data must not fail', error=tb(e) if e else '', **info)
        got = tree_of(back)
        require(trees_same(got, tree), 'the decoded tree must be the tree encoded', got=repr(got), **info)
        require(back == node and node == back and not (back != node), 'the decoded tree must compare equal', **info)
        # and it can be encoded again
        again, e = enc(lambda: A.ASTEncoder.encode(back, bool(b64)))
        if e is None:
            require(trees_same(tree_of(A.ASTEncoder.decode(again, bool(b64))), tree), 're-encoding a decoded tree', **info)
    return done


def random_codec(rng, st):
    tree = gen_codec_tree(rng)
    m = rng.random()
    last = None if m < 0.7 else rng.choice([65500, 65530, 65534, 65535, 65536, 70000, 131071]) if m < 0.9 else rng.randrange(65536)
    n = check_codec(tree, last, rng.random() < 0.3)
    st.case((repr(tree), last, n), tree)


def mutants(tree):
    """Trees that differ from the given one in one respect."""
    k, tok, kids = tree
    yield (k, (tok[0], tok[1] + 1, tok[2]), kids)
    v = tok[2]
    if tok[0] in ('INT', 'FLOAT'):
        yield (k, (tok[0], tok[1], v + 1 if v + 1 != v else v * 2), kids)
    if tok[0] == 'INT':
        yield ('FloatValNode', ('FLOAT', tok[1], float(v)), kids)
    elif tok[0] == 'STRING':
        yield (k, (tok[0], tok[1], v + 'x'), kids)
        yield (k, (tok[0], tok[1], v.swapcase()), kids) if v.swapcase() != v else (k, (tok[0], tok[1], v + 'y'), kids)
    elif tok[0] == 'OP':
        yield (k, (tok[0], tok[1], '<' if v != '<' else '>'), kids)
    elif tok[0] == 'BOOL_OP':
        yield (k, (tok[0], tok[1], 'AND' if v == 'OR' else 'OR'), kids)
    elif tok[0] == 'BOOL':
        yield (k, (tok[0], tok[1], 'TRUE' if v != 'TRUE' else 'UNDEF'), kids)
    elif tok[0] in O.ATTS:
        o = 'OBJ_ATT' if tok[0] != 'OBJ_ATT' else 'ENV_ATT'
        yield (O.NODE[o], (o, tok[1], v), kids)
        yield (k, (tok[0], tok[1], v + 'z'), kids)
    if k == 'SetNode':
        yield (k, tok, kids + [leaf(('NULL', 0, 'NULL'))])
        if kids:
            yield (k, tok, kids[:-1])
            yield (k, tok, kids[1:])
    if len(kids) >= 2 and not trees_same(kids[0], kids[1]):
        yield (k, tok, [kids[1], kids[0]] + kids[2:])
    for i, c in enumerate(kids):
        for m in mutants(c):
            yield (k, tok, kids[:i] + [m] + kids[i + 1:])


def random_equality(rng, st):
    tree = gen_codec_tree(rng)
    reset_ids()
    a, b = real_tree(tree), real_tree(tree)
    require(a == b and not (a != b), 'equal trees must compare equal', tree=repr(tree))
    ms = list(mutants(tree))
    for m in rng.sample(ms, min(6, len(ms))):
        c = real_tree(m)
        require(a != c and not (a == c) and not (c == a), 'different trees must not compare equal', tree=repr(tree), other=repr(m))
        st.case((repr(tree), repr(m)))


def random_codec_eval(rng, st):
    names = NAMES[:3]
    tree = gen_tree(rng, rng.choice([0, 1, 2, 3]), names)
    text = to_text(rng, tree)
    reset_ids()
    node = P.Parser(Lexer(text)).parse()
    attrs, defs = gen_attrs(rng, names)
    b64 = rng.random() < 0.5
    back = A.ASTEncoder.decode(A.ASTEncoder.encode(node, b64), b64)
    it = IN.Interpreter(back, text)
    table = make_table(rng, defs)
    check_eval('C10', it, tree, attrs, defs, table, 'absent', text, history='decoded tree')
    st.case((text, repr(attrs)))


def fixed_codec(st):
    texts = ['TRUE', 'user.a', 'NOT user.a', 'user.a = 1', 'user.a = ""', '{} = {}', 'user.a IN {1, 2.5, "x", NULL, ""}', '1 = 1 AND 2 = 2 OR NOT (3 = 4)',
             'env.x SUBSET {""}', 'NULL = NULL', 'user.a = -5', 'user.a = 0.1', '(TRUE OR FALSE) AND (UNDEF OR user.b)',
             ' AND '.join(['user.a%d = %d' % (i, i) for i in range(60)]), '{' + ', '.join(str(i) for i in range(300)) + '} = user.a']
    for t in texts:
        tree = O.parse(O.lex(t))
        for last in (None, 65530, 65535, 65536, 300):
            n = check_codec(tree, last)
            if last is None:
                require(n == 3, 'a small tree must be encodable', policy=t)
            st.case((t, last))
        st.samples.append(t) if len(st.samples) < 3 else None


# ------------------------------------------------------------------------------------------------ symbol tables
def random_table(rng, st):
    """State machine: SymbolTable against a dict keyed by lower-case name."""
    tab = SY.SymbolTable()
    model = {}
    log = []
    names = ['a', 'A', 'Ab', 'aB', 'b', 'user', 'x_1']
    for _ in range(rng.choice([3, 6, 12, 20])):
        op = rng.choice(['define', 'define', 'define', 'lookup', 'set', 'switch', 'exists', 'value'])
        k = rng.choice(NSK + ['UNK_ATT', None])
        n = rcase(rng, rng.choice(names))
        pre = O.PREFIX.get(k, 'unkown.')
        full = pre + n
        key = full.lower()
        info = dict(history=repr(log[-8:]), name=full)
        arg = rcase(rng, full)
        if rng.random() < 0.3:
            arg = SY.Symbol(n, TokenType[k] if k else None)
        log.append((op, full))
        if op == 'define':
            v = rng.choice([None, True, False, 1, 1.5, 'a', '', 0, {1}, [1]])
            ty = rng.choice(list(SY.SymbolType) + [None])
            s = SY.Symbol(n, TokenType[k] if k else None, ty, v)
            require(s.att_name == n.lower() and s.name == key, 'names of a symbol', got=repr((s.att_name, s.name)), **info)
            ok = tab.define(s)
            require(bool(ok) == (key not in model), 'the first definition wins', got=repr(ok), **info)
            if key not in model:
                model[key] = [s, ty or SY.SymbolType.UNKNOWN, A.ASTResult.from_bool(v) if isinstance(v, bool) else v, TokenType[k] if k else TokenType.UNK_ATT, n.lower()]
        elif op == 'set':
            v = rng.choice([None, True, False, 2, 'b'])
            try:
                tab.set_value(arg, v)
                ok = True
            except Exception:
                ok = False
            require(ok == (key in model), 'set_value of an undefined name fails, of a defined one succeeds', **info)
            if ok:
                model[key][2] = A.ASTResult.from_bool(v) if isinstance(v, bool) else v
        elif op == 'switch':
            ty = rng.choice(list(SY.SymbolType))
            try:
                old = tab.switch_type(arg, ty)
                ok = True
            except Exception:
                ok = False
            require(ok == (key in model), 'switch_type of an undefined name fails, of a defined one succeeds', **info)
            if ok:
                require(old is model[key][1], 'switch_type returns the former type', **info)
                model[key][1] = ty
        elif op == 'value':
            try:
                v = tab.lookup_value(arg)
                ok = True
            except Exception:
                ok = False
            require(ok == (key in model), 'lookup_value', **info)
        for name, m in model.items():
            for q in (name, name.upper(), m[0]):
                s = tab.lookup(q)
                require(s is m[0], 'lookup must give the first definition', q=repr(q), **info)
                require(s.type is m[1] and tab.lookup_type(q) is m[1], 'type of an attribute', q=repr(q), **info)
                require(same_val(s.value, m[2]) and same_val(tab.lookup_value(q), m[2]), 'value of an attribute', q=repr(q), got=repr(s.value), want=repr(m[2]), **info)
                require(tab.lookup_att_type(q) is m[3] and tab.lookup_att_name(q) == m[4] and tab.exists(q), 'entry of an attribute', q=repr(q), **info)
        for q in ('user.none', 'user', 'a', '', 'unkown.zz', full if key not in model else 'user.q'):
            require(tab.lookup(q) is None and tab.lookup_type(q) is None and tab.lookup_att_type(q) is None and
                    tab.lookup_att_name(q) is None and not tab.exists(q), 'an undefined name is absent', q=q, **info)
        require(set(tab.names()) == set(model) and len(list(tab.names())) == len(model), 'names()', **info)
        require({id(s) for s in tab.symbols()} == {id(m[0]) for m in model.values()} and len(list(tab.symbols())) == len(model), 'symbols()', **info)
    st.case(repr(log), log)


ARG = {'USR_ATT': 'user_atts', 'ENV_ATT': 'env_atts', 'OBJ_ATT': 'object_atts', 'ADM_ATT': 'admin_atts', 'CON_ATT': 'connect_atts'}


def random_builder(rng, st):
    per = {}
    for k in NSK:
        d = {}
        for _ in range(rng.choice([0, 1, 2, 3])):
            d[rcase(rng, rng.choice(NAMES))] = rng.choice([None, True, False, 0, 1, '', 'a', 1.5, frozenset([1])])
        if rng.random() < 0.8:
            per[k] = d
    types = {}
    for k in NSK:
        for n in NAMES:
            if rng.random() < 0.4:
                types[O.PREFIX[k] + n.lower()] = rng.choice(list(SY.SymbolType))
    kw = {ARG[k]: dict(d) for k, d in per.items()}
    order = {k: dict(per.get(k, {})) for k in NSK}
    b = SY.SymbolTableBuilder(dict(types), **kw) if types or rng.random() < 0.5 else SY.SymbolTableBuilder(None, **kw)
    info = dict(per=repr(per), types=repr(types))
    mixed = {}
    if rng.random() < 0.6:
        for _ in range(rng.choice([0, 1, 2, 4])):
            k = rng.choice(NSK)
            mixed[O.PREFIX[k] + rng.choice(NAMES) + rng.choice(['', '', '.x'])] = rng.choice([None, True, 0, '', 'm', False])
        bad = rng.random() < 0.2
        if bad:
            mixed[rng.choice(['nobody.a', 'users.a', 'use.a', '.a', 'user_atts.a'])] = 1
        info['mixed'] = repr(mixed)
        try:
            b.load_mixed_att_val_dict(dict(mixed))
            ok = True
        except Exception:
            ok = False
        require(ok == (not bad), 'an unknown namespace must be refused, known ones distributed', **info)
        if bad:
            return
        inv = {v[:-1]: k for k, v in O.PREFIX.items()}
        for full, v in mixed.items():
            ns, n = full.split('.', 1)
            order[inv[ns]][n] = v
    if rng.random() < 0.1:
        b.reset_values()
        order = {k: {} for k in NSK}
        info['reset'] = 'yes'
    want = {}
    for k in NSK:
        for n, v in order[k].items():
            want.setdefault(O.PREFIX[k] + n.lower(), (k, n, v))
    for rnd in range(2):
        tab = b.build()
        require(set(tab.names()) == set(want), 'the table must contain exactly the attributes given', got=repr(sorted(tab.names())), want=repr(sorted(want)), **info)
        for full, (k, n, v) in want.items():
            s = tab.lookup(full)
            require(s.att_type is TokenType[k] and s.att_name == n.lower() and s.name == full, 'namespace and name', name=full, got=repr(s), **info)
            wv = A.ASTResult.from_bool(v) if isinstance(v, bool) else v
            require(same_val(s.value, wv), 'value of a built attribute', name=full, got=repr(s.value), **info)
            require(s.type is types.get(full, SY.SymbolType.UNKNOWN), 'type of a built attribute', name=full, got=repr(s.type), **info)
            if rnd == 0:
                # changing one table must not reach another
                tab.set_value(full, 'changed')
    st.case(repr(info), per)


def fixed_builder(st):
    """Each namespace alone, so that nothing is swapped."""
    for k in NSK:
        for n, v in (('a', 1), ('A', True), ('b', None), ('c', 0), ('d', False), ('e', '')):
            b = SY.SymbolTableBuilder({O.PREFIX[k] + n.lower(): SY.SymbolType.INT}, **{ARG[k]: {n: v}})
            t = b.build()
            require(list(t.names()) == [O.PREFIX[k] + n.lower()], 'namespace', k=k)
            require(t.lookup_type(O.PREFIX[k] + n) is SY.SymbolType.INT, 'declared type', k=k)
            b = SY.SymbolTableBuilder()
            b.load_mixed_att_val_dict({O.PREFIX[k] + n: v})
            t = b.build()
            require(list(t.names()) == [O.PREFIX[k] + n.lower()], 'mixed namespace', k=k)
            require(t.lookup_att_type(O.PREFIX[k] + n) is TokenType[k], 'mixed namespace type', k=k)
            st.case((k, n))
    for bad in ('nobody.a', 'a.b', 'User.', '.user', 'userx.a'):
        b = SY.SymbolTableBuilder()
        try:
            b.load_mixed_att_val_dict({bad: 1})
        except Exception:
            continue
        if bad != 'User.':
            raise Mismatch('an unknown namespace must be refused', name=bad)


def search(prop, tier, seed, seconds, hints, worker):
    d = [0, 1, 2, 3] if tier == 'quick' else [0, 1, 2, 3, 4, 5]
    rule = 'random and exhaustive small cases executed on CPython and compared with refute/oracle.py; a case counts once per ' \
           'distinct input'
    if prop == 'C01':
        return loop(prop, [every_truth_table, every_boolean_tree], [random_eval(prop, d), random_history(prop)], seed, seconds, worker, rule)
    if prop == 'C02':
        return loop(prop, [every_comparison(prop)], [random_eval(prop, d)], seed, seconds, worker, rule)
    if prop == 'C03':
        return loop(prop, [reference_names], [random_eval(prop, [0, 0, 1])], seed, seconds, worker, rule)
    if prop == 'C04':
        return loop(prop, [], [random_history(prop)], seed, seconds, worker, rule)
    if prop == 'C05':
        return loop(prop, [reference_names, every_comparison(prop)], [random_eval(prop, d), random_history(prop)], seed, seconds, worker, rule)
    if prop == 'C06':
        return loop(prop, [short_sequences(4), reuse_lexer], [random_tokens, random_text], seed, seconds, worker, rule)
    if prop in ('C07', 'C08'):
        return loop(prop, [short_texts, reuse_lexer], [random_text], seed, seconds, worker, rule)
    if prop == 'C09':
        return loop(prop, [every_typecheck], [random_typecheck], seed, seconds, worker, rule)
    if prop == 'C10':
        return loop(prop, [fixed_codec], [random_codec, random_equality, random_codec_eval], seed, seconds, worker, rule)
    if prop == 'C16':
        return loop(prop, [fixed_builder], [random_table, random_builder], seed, seconds, worker, rule)
    raise KeyError(prop)
