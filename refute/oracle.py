"""Reference semantics of the policy language, written from the documentation and properties.jsonl only.

Nothing here imports the code under test.  Tokens are tuples (kind, pos, value); trees are tuples
(kind, token, [children]); values are python numbers/strings, NULL, frozensets (sets) and 'T' 'F' 'U'.
"""

NULL = ('NULL',)
KEYWORDS = {'in': 'OP', 'subset': 'OP', 'and': 'BOOL_OP', 'or': 'BOOL_OP', 'true': 'BOOL', 'false': 'BOOL',
            'undef': 'BOOL', 'not': 'NOT_OP', 'null': 'NULL'}
NS = {'user': 'USR_ATT', 'object': 'OBJ_ATT', 'env': 'ENV_ATT', 'admin': 'ADM_ATT', 'connect': 'CON_ATT'}
PUNCT = {'{': 'LSET', '}': 'RSET', ',': 'COMMA', '(': 'LPARN', ')': 'RPARN'}
ATTS = ('USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT')
ATOMIC = ('INT', 'FLOAT', 'STRING', 'NULL')
NODE = {'OP': 'OpNode', 'BOOL_OP': 'BoolOpNode', 'NOT_OP': 'NotNode', 'USR_ATT': 'UsrAttNode', 'OBJ_ATT': 'ObjAttNode',
        'ENV_ATT': 'EnvAttNode', 'ADM_ATT': 'AdmAttNode', 'CON_ATT': 'ConAttNode', 'NULL': 'NullValNode',
        'BOOL': 'BoolValNode', 'INT': 'IntValNode', 'FLOAT': 'FloatValNode', 'STRING': 'StringValNode', 'LSET': 'SetNode'}
PREFIX = {'USR_ATT': 'user.', 'OBJ_ATT': 'object.', 'ENV_ATT': 'env.', 'ADM_ATT': 'admin.', 'CON_ATT': 'connect.'}


class LexFail(Exception):
    pass


class ParseFail(Exception):
    pass


class EvalFail(Exception):
    pass


def strip_pos(t):
    return t


def lex(text):
    toks = [('START', 0, None)]
    i, n = 0, len(text)

    def word(j):
        while j < n and (text[j].isalpha() or text[j].isdigit() or text[j] == '_'):
            j += 1
        return j
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
            continue
        if c in PUNCT:
            toks.append((PUNCT[c], i, None))
            i += 1
        elif text[i:i + 2] in ('>=', '<=', '!='):
            toks.append(('OP', i, text[i:i + 2]))
            i += 2
        elif c in '=<>':
            toks.append(('OP', i, c))
            i += 1
        elif c == '"':
            j = text.find('"', i + 1)
            if j < 0 or any(not (32 <= ord(x) <= 126) for x in text[i + 1:j]):
                raise LexFail(i)
            toks.append(('STRING', i, text[i + 1:j]))
            i = j + 1
        elif c.isdigit() or (c == '-' and i + 1 < n and text[i + 1].isdigit()):
            j = i + 1
            while j < n and text[j].isdigit():
                j += 1
            kind = 'INT'
            if j < n and text[j] == '.':
                kind = 'FLOAT'
                k = j + 1
                while k < n and text[k].isdigit():
                    k += 1
                if k == j + 1 or (k < n and text[k] == '.'):
                    raise LexFail(i)
                j = k
            try:
                v = int(text[i:j]) if kind == 'INT' else float(text[i:j])
            except ValueError:
                raise LexFail(i)
            toks.append((kind, i, v))
            i = j
        elif c.isalpha():
            j = word(i)
            w = text[i:j]
            if j < n and text[j] == '.':
                k = word(j + 1)
                if k == j + 1 or w.lower() not in NS:
                    raise LexFail(i)
                toks.append((NS[w.lower()], i, text[j + 1:k]))
                i = k
            elif w.lower() in KEYWORDS:
                toks.append((KEYWORDS[w.lower()], i, w.upper()))
                i = j
            else:
                raise LexFail(i)
        else:
            raise LexFail(i)
    toks.append(('END', n, None))
    return toks


def parse(toks):
    p = [1]

    def cur():
        return toks[p[0]]

    def take(kind):
        t = cur()
        if t[0] != kind:
            raise ParseFail(p[0])
        p[0] += 1
        return t

    def operand():
        t = cur()
        if t[0] in ATTS or t[0] in ATOMIC:
            p[0] += 1
            return (NODE[t[0]], t, [])
        if t[0] == 'LSET':
            p[0] += 1
            kids = []
            if cur()[0] != 'RSET':
                while True:
                    m = cur()
                    if m[0] not in ATOMIC:
                        raise ParseFail(p[0])
                    p[0] += 1
                    kids.append((NODE[m[0]], m, []))
                    if cur()[0] == 'RSET':
                        break
                    take('COMMA')
            take('RSET')
            return ('SetNode', t, kids)
        raise ParseFail(p[0])

    def paren():
        take('LPARN')
        e = orx()
        take('RPARN')
        return e

    def exp():
        t = cur()
        if t[0] == 'NOT_OP':
            p[0] += 1
            n = cur()
            if n[0] == 'LPARN':
                return ('NotNode', t, [paren()])
            if n[0] == 'BOOL' or n[0] in ATTS:
                p[0] += 1
                return ('NotNode', t, [(NODE[n[0]], n, [])])
            raise ParseFail(p[0])
        if t[0] == 'LPARN':
            return paren()
        if t[0] == 'BOOL':
            p[0] += 1
            return ('BoolValNode', t, [])
        if t[0] in ATTS and toks[p[0] + 1][0] != 'OP':
            p[0] += 1
            return (NODE[t[0]], t, [])
        left = operand()
        op = take('OP')
        return ('OpNode', op, [left, operand()])

    def andx():
        e = exp()
        while cur()[0] == 'BOOL_OP' and cur()[2] == 'AND':
            t = cur()
            p[0] += 1
            e = ('BoolOpNode', t, [e, exp()])
        return e

    def orx():
        e = andx()
        while cur()[0] == 'BOOL_OP' and cur()[2] == 'OR':
            t = cur()
            p[0] += 1
            e = ('BoolOpNode', t, [e, andx()])
        return e
    e = orx()
    if cur()[0] != 'END':
        raise ParseFail(p[0])
    return e


# ---------------------------------------------------------------------------------------------- evaluation
def NOT(a):
    return {'T': 'F', 'F': 'T', 'U': 'U'}[a]


def AND(a, b):
    return 'F' if 'F' in (a, b) else 'U' if 'U' in (a, b) else 'T'


def OR(a, b):
    return 'T' if 'T' in (a, b) else 'U' if 'U' in (a, b) else 'F'


class Val:
    def __init__(self, kind, v, attr=False):
        self.kind, self.v, self.attr = kind, v, attr

    def members(self):
        return self.v if self.kind == 'set' else frozenset([self.v])


UNDEFV = Val('undef', None)


def resolve(attrs, kind, name):
    """attrs: {full lower name: (value kind, value, type name)}; returns (Val, problem)"""
    d = attrs.get(PREFIX[kind] + name.lower())
    if d is None:
        return UNDEFV, True
    vk, v, ty = d
    fits = {'num': ('INT', 'FLOAT'), 'str': ('STRING',), 'set': ('SET',), 'bool': ('BOOL',)}.get(vk, ())
    if ty not in fits:
        return UNDEFV, True
    if vk == 'bool' and v == 'U':
        return Val('undef', None), False
    return Val(vk, v, True), False


def compare(op, l, r):
    """(truth value, own problem)"""
    if op == '!=':
        t, w = compare('=', l, r)
        return NOT(t), w
    if 'undef' in (l.kind, r.kind):
        return 'U', False
    if 'bool' in (l.kind, r.kind):
        return 'U', True
    tf = lambda b: 'T' if b else 'F'
    if op in ('<', '>', '<=', '>='):
        if l.kind == r.kind == 'num':
            return tf({'<': l.v < r.v, '>': l.v > r.v, '<=': l.v <= r.v, '>=': l.v >= r.v}[op]), False
        return 'U', True
    if op == 'IN':
        if r.kind == 'set' or (r.attr and (l.attr or l.kind == 'set')):
            s = r.members()
            return tf(bool(l.v & s) if l.kind == 'set' else l.v in s), False
        return 'U', True
    ls = l.kind == 'set' or (l.attr and (r.kind == 'set' or r.attr))
    rs = r.kind == 'set' or (r.attr and (l.kind == 'set' or l.attr))
    if ls and rs:
        a, b = l.members(), r.members()
        return tf(a == b if op == '=' else a <= b), False
    if op == 'SUBSET' or ls or rs or l.kind != r.kind:
        return 'U', True
    return tf(l.v == r.v), False


def const(tok):
    if tok[0] in ('INT', 'FLOAT'):
        return Val('num', tok[2])
    if tok[0] == 'STRING':
        return Val('str', tok[2])
    return Val('null', NULL)


def evaluate(tree, attrs):
    """(Val, number of problems); raises EvalFail for a non-boolean operand of AND, OR, NOT"""
    probs = [0]

    def go(t):
        k, tok, kids = t
        if k.endswith('AttNode'):
            v, bad = resolve(attrs, tok[0], tok[2])
            probs[0] += bad
            return v
        if k == 'BoolValNode':
            return {'TRUE': Val('bool', 'T'), 'FALSE': Val('bool', 'F'), 'UNDEF': Val('undef', None)}[tok[2].upper()]
        if k == 'SetNode':
            return Val('set', frozenset(const(c[1]).v for c in kids))
        if k.endswith('ValNode'):
            return const(tok)
        vs = [go(c) for c in kids]
        if k == 'OpNode':
            r, bad = compare(tok[2].upper(), vs[0], vs[1])
            probs[0] += bad
            return Val('undef', None) if r == 'U' else Val('bool', r)
        ts = []
        for v in vs:
            if v.kind not in ('bool', 'undef'):
                raise EvalFail()
            ts.append(v.v if v.kind == 'bool' else 'U')
        r = NOT(ts[0]) if k == 'NotNode' else (AND if tok[2].upper() == 'AND' else OR)(*ts)
        return Val('undef', None) if r == 'U' else Val('bool', r)
    v = go(tree)
    return v, probs[0]


def truth(v):
    return v.v if v.kind == 'bool' else 'U' if v.kind == 'undef' else None


# ---------------------------------------------------------------------------------------------- type checking
def typecheck(tree):
    """([(severity, operator token)], {full name: type})"""
    types = {}
    out = []

    def name(t):
        return PREFIX[t[1][0]] + t[1][2].lower()

    def isatt(t):
        return t[0].endswith('AttNode')

    def norm(x):
        return 'NUM' if x in ('INT', 'FLOAT') else x

    def kind(t):
        return {'IntValNode': 'INT', 'FloatValNode': 'FLOAT', 'StringValNode': 'STRING', 'NullValNode': 'NULL',
                'SetNode': 'SET'}[t[0]]

    def go(t):
        for c in t[2]:
            go(c)
        if isatt(t):
            types.setdefault(name(t), 'UNKNOWN')
        if t[0] != 'OpNode':
            return
        l, r = t[2]
        op = t[1][2].upper()
        atts = [x for x in (l, r) if isatt(x)]
        consts = [kind(x) for x in (l, r) if not isatt(x)]
        if op == 'IN':
            if l[0] == 'SetNode' or (not isatt(r) and r[0] != 'SetNode'):
                out.append(('ERROR', t[1]))
            return
        if op == 'SUBSET':
            if any(c != 'SET' for c in consts):
                out.append(('ERROR', t[1]))
            return
        if op in ('<', '>', '<=', '>='):
            if 'STRING' in consts or 'NULL' in consts or ('SET' in consts and not atts):
                out.append(('ERROR', t[1]))
                return
        elif not atts and norm(consts[0]) != norm(consts[1]):
            out.append(('ERROR', t[1]))
            return
        if not atts:
            return
        if len(atts) == 2:
            a, b = name(l), name(r)
            ta, tb_ = types[a], types[b]
            if ta == 'UNKNOWN' and tb_ != 'UNKNOWN':
                types[a] = tb_
            elif tb_ == 'UNKNOWN' and ta != 'UNKNOWN':
                types[b] = ta
            elif norm(ta) != norm(tb_):
                out.append(('WARN', t[1]))
            return
        a, c = name(atts[0]), consts[0]
        if types[a] == 'UNKNOWN':
            if c != 'NULL':
                types[a] = c
        elif c == 'NULL' or norm(c) != norm(types[a]):
            out.append(('WARN', t[1]))
    go(tree)
    return out, types
