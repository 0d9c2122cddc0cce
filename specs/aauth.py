"""C15: contract of AttributeAuthority.attribute_request."""
import ast
import builtins
import os
import time
import bcrypt
from engine.core import has_quant
from .services import *
import hgaa.attcert as A
import hgaa.schema.aauth as S
import hgaa.services.aauth as P

JUNK = (None, '*', '')
checkpw = z3.Function('bcrypt.checkpw', V.S, V.S, V.B)
CONNECTION = '/attribute/connection/'


def text_of(v):
    """The text of which a byte string is the UTF-8 encoding."""
    ts = []
    for p in R_.norm(R_.rope_of(v)):
        if isinstance(p, bytes):
            ts.append(z3.StringVal(p.decode()))
        elif isinstance(p, R_.Utf):
            ts.append(p.t)
        else:
            raise Unsupported('password that is not an encoded text')
    return z3.Concat(ts) if len(ts) > 1 else ts[0] if ts else z3.StringVal('')


class Request(Sym):
    """A list of texts: the ones meant (text(i), i < n), between them any number of None, '*' and ''."""
    pytype = list
    elem_part = False

    def __init__(self, h, name):
        self.h, self.name = h, name
        self.n = z3.Int(name + '.count')
        h.ctx.assume(self.n >= 0)
        self.text_fn = z3.Function(name + '.text', V.I, V.S)
        i = z3.Int('i')
        h.ctx.assume(z3.ForAll([i], z3.And(self.text_fn(i) != z3.StringVal('*'), self.text_fn(i) != z3.StringVal('')),
                               patterns=[self.text_fn(i)]))
        self.junk = JUNK
        self.seqs = {}
        self.clean = SSeq(self.n, lambda i: self.text(i), list, name)

    def text(self, i):
        t = self.text_fn(i)
        self.h.ctx.assume(z3.And(t != z3.StringVal('*'), t != z3.StringVal('')))
        return mk_str([ZS(t)])

    def raw(self):
        """The list as it is now."""
        if not self.junk:
            return self.clean
        if self.junk not in self.seqs:
            h, tag = self.h, '%s.%s' % (self.name, ''.join({None: 'n', '*': 's', '': 'e'}[x] for x in self.junk))
            n = z3.Int(tag + '.count')
            kind = z3.Function(tag + '.kind', V.I, V.I)
            idx = z3.Function(tag + '.index', V.I, V.I)
            pos = z3.Function(tag + '.position', V.I, V.I)
            i = z3.Int('i')
            h.ctx.assume(n >= self.n)
            kinds = [JUNK.index(x) for x in self.junk]
            h.ctx.assume(z3.ForAll([i], z3.Or([kind(i) == 3] + [kind(i) == x for x in kinds]), patterns=[kind(i)]))
            h.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, kind(i) == 3),
                                                   z3.And(0 <= idx(i), idx(i) < self.n, pos(idx(i)) == i)), patterns=[idx(i)]))
            h.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n),
                                                   z3.And(0 <= pos(i), pos(i) < n, kind(pos(i)) == 3, idx(pos(i)) == i)),
                                   patterns=[pos(i)]))

            def gen(i):
                h.ctx.assume(z3.Or([kind(i) == 3] + [kind(i) == x for x in kinds]))
                for x in kinds:
                    if h.ctx.branch(kind(i) == x):
                        return JUNK[x]
                return self.text(idx(i))
            self.seqs[self.junk] = SSeq(n, gen, list, self.name)
        return self.seqs[self.junk]

    def iterate(self, interp):
        return None

    def as_seq(self, interp):
        return self.raw()

    def len(self, interp):
        return mk_int(self.raw().n)

    def truth(self, interp):
        return mk_bool(self.raw().n > 0)

    def contains(self, interp, x):
        if (x is None or isinstance(x, str)) and x in JUNK:
            if x not in self.junk:
                return False
            return mk_bool(z3.Bool('%s.has.%s' % (self.name, x)))
        return loops.member(interp, self.raw(), x)

    def method(self, interp, name, args, kwargs):
        raise Unsupported('list.%s of a request' % name)

    def show(self):
        return self.name


class File(Sym):
    def __init__(self, w, name, mode):
        self.w, self.name, self.mode, self.data, self.closed = w, name, mode, (), False

    def method(self, interp, name, args, kwargs):
        if name == 'write' and self.mode == 'wb':
            interp.ctx.set_cell(self, 'data', self.data + (args[0],))
            return None
        if name == '__enter__':
            return self
        if name in ('close', '__exit__'):
            interp.ctx.set_cell(self, 'closed', True)
            return None
        if name == 'flush':
            return None
        raise Unsupported('file.%s' % name)


class Sent(Sym):
    pytype = attachment

    def __init__(self, f):
        self.f = f


class World:
    def __init__(self, h, debug=True):
        self.h = h
        it = h.interp
        self.clock = K.env(h)
        self.now = z3.ToInt(self.clock)
        self.cr = K.Crypto(h)
        self.users = Table(h, S.User)
        self.users.keys = {'id'}
        self.users.unique('id', V.I)
        self.atts = Table(h, S.Attribute)
        self.atts.keys = {'id'}
        self.atts.unique('id', V.S)
        self.asg = Table(h, S.AttributeAssignment, dict(att_id=lambda i, r: mk_str([ZS(self.atts.term('id', self.att(r.i)))]),
                                                         attribute=lambda i, r: self.attribute_of(r),
                                                         user=self.no_user))
        self.asg.keys = set()
        i = z3.Int('i')
        back = z3.Function('assignment', V.I, V.I, V.I)
        ut = self.asg.term('user_id', i)
        h.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.asg.n), z3.And(
            0 <= self.att(i), self.att(i) < self.atts.n, back(ut, self.att(i)) == i)), patterns=[ut]))
        self.db = DB(h, {S.User: self.users, S.Attribute: self.atts, S.AttributeAssignment: self.asg})
        self.db.joined[(S.Attribute, S.AttributeAssignment)] = self.join
        self.db.joined[(S.AttributeAssignment, S.Attribute)] = self.join
        it.model(Log.isEnabledFor, lambda i, a, k: mk_bool(z3.Const(h.ctx.name('debug'), V.B)) if debug else False)
        it.model(bcrypt.checkpw, self.checkpw)
        it.model(bcrypt.hashpw, lambda i, a, k: Opaque('hash', bytes))
        it.model(builtins.open, self.open)
        it.model(os.path.getsize, lambda i, a, k: h.int('size', 0))
        it.model(attachment, lambda i, a, k: self.send(a))
        it.call_hook = self.hook
        it.loop_hook = self.loop
        self.aa = it.alloc(object.__new__(P.AttributeAuthority))
        self.key = K.SKey(z3.Const('authority.key', K.KEY), True)
        iss = it.alloc(object.__new__(A.ACIssuer))
        self.pub = h.ctx.name('pub')
        pk = z3.Const(self.pub, R_.BYTES)
        h.ctx.assume(R_.blen(pk) > 0)
        self.pub_key = R_.SBytes((R_.Raw(pk),))
        iss.__dict__.update(key_algo=h.str('issuer.algo'), pub_key=self.pub_key, url=h.str('issuer.url'), name=h.str('issuer.name'),
                            uid=h.str('issuer.uid'))
        self.issuer = iss
        self.before = dict(iss.__dict__)
        self.length = h.int('length', 0)
        self.pepper = h.str('pepper')
        self.a_uri = iss.__dict__['uid']
        self.aa.__dict__.update(ac_issuer=iss, key=self.key, pub_key=self.pub_key, a_uri=self.a_uri, aauth_id=iss.__dict__['name'],
                                rev_url=h.str('rev_url'), aauth_url=iss.__dict__['url'], pass_pepper=self.pepper,
                                ac_expire_length=self.length, key_cipher='RSA', sig_hash='SHA256', sig_algo='RSASSA-PKCS1-v1_5',
                                aa_ver=1, ac_ver=1, c_types=[0], key_file=Opaque('file'), key_pass=Opaque('pass'))
        self.aa.__dict__['_db_session'] = ModelFn(lambda i, a, k: self.db)
        del loops.FILLED[:], loops.VIEWS[:]
        self.filtered = None
        self.files, self.sent, self.exported = [], [], []
        self.ids, self.names = Request(h, 'ids'), Request(h, 'names')

    # ---- the store
    def att(self, i):
        return self.asg.fn('attribute', V.I)(i)

    def attribute_of(self, r):
        t = self.att(r.i)
        if not self.h.ctx.entails(z3.And(0 <= t, t < self.atts.n)):
            self.h.ctx.assume(z3.And(0 <= t, t < self.atts.n))
        return self.atts.rows.at(t)

    def no_user(self, interp, row):
        raise Unsupported('user of an assignment')

    def join(self, interp, q):
        """Attribute joined with AttributeAssignment: one result for each assignment."""
        def pick(row, c):
            if c is S.Attribute:
                return self.attribute_of(row)
            if c is S.AttributeAssignment:
                return row
            if c.class_ is S.AttributeAssignment:
                return Lazy(lambda: interp.load_attr(row, c.key))
            return interp.load_attr(self.attribute_of(row), c.key)

        def test(row):
            fs = []
            for c in q.crits:
                r = row if c.cls is S.AttributeAssignment else self.attribute_of(row)
                fs.append(bool_term(interp.eq(interp.load_attr(r, c.col), c.value)))
            return mk_bool(z3.And([z3.BoolVal(True)] + fs))
        rows = loops.filtered(interp, self.asg.rows, test)
        seq = self.filtered = rows[0].seq
        cols = (q.cls,) + q.cols

        def gen(i):
            r = seq.at(i)
            return tuple(pick(r, c) for c in cols) if len(cols) > 1 else pick(r, cols[0])
        return interp.alloc([Seg(SSeq(seq.n, gen, list, 'joined'))])

    # ---- contracts
    def checkpw(self, interp, a, k):
        d = dict(zip(('password', 'hashed_password'), a), **k)
        for v in d.values():
            if pytype_of(v) is not bytes:
                interp.raise_py(TypeError('bytes expected'))
        return mk_bool(checkpw(text_of(d['password']), text_of(d['hashed_password'])))

    def open(self, interp, a, k):
        d = dict(zip(('file', 'mode'), a), **k)
        f = File(self, d['file'], d.get('mode', 'r'))
        interp.ctx.touch(self.files)
        self.files.append(f)
        return f

    def send(self, a):
        s = Sent(a[0])
        self.h.ctx.touch(self.sent)
        self.sent.append(s)
        return s

    def hook(self, interp, f, args, kwargs):
        if f is K.fn_of(A.AttributeCertificate, 'export_ac'):
            names = ('self', 'format', 'sign', 'prvi_key', 'sig_algo')
            b = dict(zip(names, args), **kwargs)
            if set(b) - set(names):
                raise Unsupported('export_ac arguments')
            t = z3.Const(interp.ctx.name('exported'), R_.BYTES)
            interp.ctx.assume(R_.blen(t) > 0)
            r = R_.SBytes((R_.Raw(t),))
            interp.ctx.touch(self.exported)
            self.exported.append((b, r))
            return r
        if f is getattr(P.AttributeAuthority, '_make_con_att_set', None):
            return self.connection(interp)
        return NOTHANDLED

    def connection(self, interp):
        """Contract of _make_con_att_set: raises, or a dict of entries about the connection."""
        h = self.h
        if h.choose(['works', 'fails'], 'connection attributes') == 'fails':
            interp.raise_py(ValueError('invalid literal for int()'))
        n = h.int('connection.count', 0).t
        fs = {x: z3.Function('connection.' + x, V.I, V.S) for x in ('id', 'name', 'value')}
        ty = z3.Function('connection.type', V.I, V.I)

        def gen(i):
            h.ctx.assume(z3.Or([ty(i) == m.value for m in A.AttributeType]))
            d = dict(id=mk_str([CONNECTION, ZS(fs['id'](i))]), name=mk_str([ZS(fs['name'](i))]), value=mk_str([ZS(fs['value'](i))]),
                     type=interp.mk_enum(A.AttributeType, ty(i)))
            return (d['name'], interp.alloc(d))
        view = SSeq(n, gen, list, 'connection attributes')
        from engine.interp import OVERLAY
        o = SDict(None, 'connection attributes')
        o.items_view = lambda i: view
        return interp.alloc({OVERLAY: o})

    def loop(self, interp, node, fr, v):
        if v is not None or not isinstance(node, ast.While):
            return NOTHANDLED
        return self.removing(interp, node, fr)

    def removing(self, interp, node, fr):
        """while x in l: l.remove(x) -- afterwards x is not in l and nothing else has changed."""
        t, b = node.test, node.body
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In) and len(b) == 1 and not node.orelse and
                isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Call) and isinstance(b[0].value.func, ast.Attribute) and
                b[0].value.func.attr == 'remove' and len(b[0].value.args) == 1 and not b[0].value.keywords):
            return NOTHANDLED
        l, l2 = interp.ev(t.comparators[0], fr), interp.ev(b[0].value.func.value, fr)
        x, x2 = interp.ev(t.left, fr), interp.ev(b[0].value.args[0], fr)
        if not isinstance(l, Request) or l is not l2 or type(x) is not type(x2) or isinstance(x, Sym) or x != x2 or x not in JUNK:
            return NOTHANDLED
        interp.ctx.set_cell(l, 'junk', tuple(y for y in l.junk if y != x))
        return None

    # ---- running
    def request(self, password=True):
        h, it = self.h, self.h.interp
        c, k, al, ka = (it.alloc(object.__new__(x)) for x in (P.Credentials, P.PublicKey, P.AttributeList, P.KeyAlgorithm))
        self.username, self.password = h.str('username'), h.str('password')
        self.ctype = h.int('credential type').t
        c.__dict__.update(type=SInt(self.ctype), username=self.username, password=self.password)
        ka.__dict__.update(cipher=h.str('cipher'), key_size=h.int('key size'))
        t = z3.Const('holder.key', R_.BYTES)
        h.ctx.assume(R_.blen(t) >= 0)
        self.holder_key = R_.SBytes((R_.Raw(t),))
        k.__dict__.update(public_key=self.holder_key, key_algorithm=ka)
        al.__dict__.update(attribute_ids=self.ids, attribute_names=self.names)
        self.algo = ka
        return h.call(it.load_attr(self.aa, 'attribute_request'), c, k, al, REMOTE_ADDR=h.str('address'))

    def authenticated(self):
        """Some user of that name whose stored hash the peppered password matches; assumed afterwards for user u."""
        h, it = self.h, self.h.interp
        u = z3.Int(h.ctx.name('user'))
        low = it.call(it.load_attr(self.username, 'lower'))
        row = Row(S.User, None, self.users, u)
        return u, z3.And(0 <= u, u < self.users.n, bool_term(it.eq(it.load_attr(row, 'username'), low)),
                         checkpw(z3.Concat(str_z3(self.password), str_z3(self.pepper)), self.users.term('password', u)))



CASES = {'nothing requested': lambda w: z3.And(w.ids.n == 0, w.names.n == 0),
         'ids requested': lambda w: z3.And(w.ids.n > 0, w.names.n == 0),
         'names requested': lambda w: z3.And(w.ids.n == 0, w.names.n > 0),
         'both requested': lambda w: z3.And(w.ids.n > 0, w.names.n > 0)}


def issue(h, aspect, case, by=None):
    def body():
        w = World(h, aspect == 'outcome' and case == 'nothing requested')
        h.ctx.assume(CASES[case](w))
        out = w.request()
        if out.raised:
            if aspect == 'outcome':
                h.check('refused: no file is opened', not w.files, detail=repr(out))
                h.check('refused: nothing is sent', not w.sent)
                h.cover('may be refused')
            return
        if aspect == 'outcome':
            h.check('credentials of the password type', w.ctype == 0)
            us, f = w.authenticated()
            h.check('an account of that name whose password matches', z3.Exists([us], f))
        h.check('one certificate is made', len(w.exported) == 1)
        call, data = w.exported[0]
        cert = call['self']
        users = [r for r in w.db.found if r.cls is S.User]
        h.check('the account was looked up', bool(users))
        u = users[-1].i
        if aspect == 'outcome':
            h.check('the account authenticated is the one used', z3.substitute(f, (us, u)))
            certificate(h, w, out.value, call, data, cert, u)
        elif aspect == 'attributes':
            attributes(h, w, cert, u, case)
        else:
            complete(h, w, cert, u, case, by)
    h.run(body)


def certificate(h, w, r, call, data, cert, u):
    g = lambda o, *p: h.get(o, *p) if len(p) == 1 else g(h.get(o, p[0]), *p[1:])
    it = h.interp
    h.check('the certificate is signed', call.get('sign') is True)
    h.check('with the key of the authority', call.get('prvi_key') is w.key)
    h.check('by the algorithm announced', call.get('sig_algo', 'RSASSA-PKCS1-v1_5:SHA256') == 'RSASSA-PKCS1-v1_5:SHA256')
    fmt = call.get('format', A.ExportFormat.BYTES)
    h.check('in the format reported', h.eq(g(r, 'format'), fmt.value if isinstance(fmt, A.ExportFormat) else enum_term(fmt)))
    h.check('the version is reported', z3.And(h.eq(g(r, 'version'), g(cert, 'info', 'version')), h.eq(g(r, 'version'), 1)))
    iss = g(cert, 'issuer')
    h.check('the issuer is the authority', z3.And([h.eq(g(iss, x), v) for x, v in w.before.items()]))
    h.check('the holder key is the one presented', h.eq(g(cert, 'holder', 'pub_key'), w.holder_key))
    low = it.call(it.load_attr(w.username, 'lower'))
    uid = it.binop(ast.Add, it.binop(ast.Add, w.a_uri, '/user/'), low)
    h.check('the holder is the account', h.eq(g(cert, 'holder', 'uid'), uid))
    name = g(cert, 'holder', 'name')
    h.check('the holder name is the name presented or stored', z3.Or([z3.BoolVal(name is None)] + [h.eq(name, x) for x in (
        w.username, low) if name is not None]))
    issued = g(cert, 'info', 'issued')
    h.check('issued now', h.eq(issued, SInt(w.now)))
    h.check('valid from then', h.eq(g(cert, 'rev_rules', 'valid_after'), issued))
    h.check('for the configured length', h.eq(g(cert, 'rev_rules', 'valid_before'), SInt(w.now + w.length.t)))
    h.check('one attachment', len(w.sent) == 1 and g(r, 'data') is w.sent[0])
    f = w.sent[0].f
    h.check('the attachment is a file opened for reading', isinstance(f, File) and f.mode == 'rb' and not f.closed)
    same = [x for x in w.files if x is not f and x.mode in ('wb', 'w', 'ab', 'xb')]
    h.check('one file is written', len(same) == 1)
    h.check('the file sent is the file written', h.eq(f.name, same[0].name))
    h.check('the file is complete', same[0].closed and [x is f for x in w.files].index(True) > [x is same[0] for x in w.files].index(True))
    h.check('its contents are the certificate', len(same[0].data) == 1 and h.eq(same[0].data[0], data))
    h.cover('may be issued')


def entries(h, cert):
    l = h.get(cert, 'att_set')
    l = l if type(l) in (list, tuple) else [Seg(h.interp.as_seq(l))]
    return l


def is_connection(att_id):
    p = att_id if isinstance(att_id, str) else att_id.pieces[0] if isinstance(att_id, SStr) else ''
    return isinstance(p, str) and p.startswith(CONNECTION)


def matches(h, w, e, r):
    """Formula: the entry says what assignment r says."""
    a = w.att(r)
    g = lambda n: h.get(e, n)
    ty = lambda v: enum_term(v) if isinstance(v, SEnum) else z3.IntVal(v.value)
    empty = z3.StringVal('')
    name, value = w.atts.term('name', a), w.asg.term('value', r)
    null_t, null_v = w.atts.null('type', a), w.asg.null('value', r)
    # a text that is empty and one that is missing are the same in a certificate
    text = lambda v, null, t: z3.Or(null, t == empty) if v is None else z3.And(z3.Not(null), h.eq(v, mk_str([ZS(t)])))
    return z3.And(h.eq(g('att_id'), mk_str([ZS(w.atts.term('id', a))])), text(g('att_name'), z3.BoolVal(False), name),
                  null_t if g('att_type') is None else z3.And(z3.Not(null_t), ty(g('att_type')) == w.atts.term('type', a)),
                  z3.Or(text(g('att_value'), null_v, value), z3.And(null_v, h.eq(g('att_value'), '') if g('att_value') is not None else False)))


def arguments(t, f):
    """Arguments to which the function is applied in the term."""
    out, todo = {}, [t]
    while todo:
        e = todo.pop()
        if z3.is_app(e):
            if e.decl().eq(f):
                out[e.arg(0).get_id()] = e.arg(0)
            todo.extend(e.children())
    return list(out.values())


def among(h, req, v):
    """Formula: v is one of the texts requested.  Numbers that the path mentions are tried first."""
    if v is None:
        return z3.BoolVal(False), z3.BoolVal(False)
    f = lambda x: z3.And(0 <= x, x < req.n, h.eq(mk_str([ZS(req.text_fn(x))]), v))
    cs = {}
    for a in h.ctx.assumed:
        if not has_quant(a):
            for c in arguments(a, req.text_fn(z3.IntVal(0)).decl()):
                cs[c.get_id()] = c
    x = z3.Int(h.ctx.name('x'))
    return z3.Or([z3.BoolVal(False)] + [f(c) for c in cs.values()]), z3.Exists([x], f(x))


def attributes(h, w, cert, u, case):
    l = entries(h, cert)
    e = h.choose(list(range(len(l))), 'entry') if len(l) else None
    if e is None:
        h.cover('no attributes')
        return
    e = l[e]
    if type(e) is Seg:
        q = z3.Int(h.ctx.name('entry'))
        h.ctx.assume(z3.And(0 <= q, q < e.seq.n))
        e = e.seq.at(q)
    if is_connection(h.get(e, 'att_id')):
        h.cover('attributes of the connection')
        return
    r = z3.Int(h.ctx.name('assignment'))
    f = z3.And(0 <= r, r < w.asg.n, w.asg.term('user_id', r) == w.users.term('id', u), matches(h, w, e, r))
    cs = arguments(str_z3(h.get(e, 'att_id')), w.att(r).decl())
    h.check('the attribute is one assigned to the user', z3.Or([z3.substitute(f, (r, c)) for c in cs]) if cs else z3.Exists([r], f))
    if case != 'nothing requested':
        (a, b), (c, d) = among(h, w.ids, h.get(e, 'att_id')), among(h, w.names, h.get(e, 'att_name'))
        h.check('and was requested', z3.Or(a, c) if h.ctx.entails(z3.Or(a, c)) else z3.Or(b, d))
    h.cover('attributes of the user')


def complete(h, w, cert, u, case, by):
    """Any attribute that had to be in the certificate is there."""
    l = [x for x in entries(h, cert) if type(x) is Seg]
    views = [(v, x.seq) for v in loops.VIEWS for x in l if x.seq.n.eq(v.n)]
    if len(views) != 1:
        raise Unsupported('the attributes of the certificate are not those of one dict')
    view, seq = views[0]
    others = [d for d in loops.FILLED if d is not view.owner]
    it = h.interp
    if case == 'nothing requested':
        r = z3.Int('r')
        h.ctx.assume(z3.And(0 <= r, r < w.asg.n, w.asg.term('user_id', r) == w.users.term('id', u)))
        c = z3.Int('place')
        h.ctx.assume(c == w.filtered.pos_of(r))
        what, field, key = 'assigned', 'att_id', mk_str([ZS(w.atts.term('id', w.att(r)))])
        want = key
    else:
        x = z3.Int('x')
        by = by or ('id' if case == 'ids requested' else 'name')
        req = w.ids if by == 'id' else w.names
        h.ctx.assume(z3.And(0 <= x, x < req.n))
        want = req.text(x)
        what, field = 'requested by ' + by, 'att_' + by
        key = None
        # first the dicts whose keys are that column of the attributes (a matter of cost only)
        others.sort(key=lambda d: not all(('.%s(' % by) in str(str_z3(q)) for _, _, _, q in d.stored_by or ()))
        for d in others:
            if key is not None:
                break
            v = d.lookup(it, want)
            if isinstance(v, Row) and v.cls is S.Attribute and \
                    h.ctx.entails(h.eq(it.load_attr(v, by), want)):
                key = it.load_attr(v, 'id')
        if key is None:
            # none is
            h.check('an attribute %s is assigned' % what, False)
            return
    p = view.position(key)
    h.check('an attribute %s is in the certificate' % what, p is not None)
    e = seq.at(p)
    v = h.get(e, field)
    h.check('as such', h.eq(v, want) if v is not None else False)
    h.cover(what)


# ------------------------------------------------------------------------------------------ attributes of the connection
class Part(Sym):
    """A part of the address: a text that may be no number."""
    pytype = str

    def to_int(self, interp):
        if interp.ctx.choose(['number', 'no number'], 'part of the address') == 'no number':
            interp.raise_py(ValueError('invalid literal for int()'))
        return SInt(z3.Int(interp.ctx.name('part')))


class Address(Sym):
    """The address of the client: any text; its parts are not looked into."""
    pytype = str

    def __init__(self, name):
        self.name = name

    def contains(self, interp, x):
        if not isinstance(x, str):
            raise Unsupported('text searched in an address')
        return mk_bool(z3.Bool('%s.has.%s' % (self.name, x)))

    def method(self, interp, name, args, kwargs):
        if name == 'split':
            n = z3.Int(interp.ctx.name('parts'))
            interp.ctx.assume(n >= 1)
            return interp.alloc([Seg(SSeq(n, lambda i: Part(), list, 'parts'))])
        raise Unsupported('%s of an address' % name)

    def show(self):
        return self.name


def any_iteration(interp, node, fr, v):
    """A loop over the parts of the address that only stores into dicts: the dicts hold what one arbitrary iteration stores
    (started with arbitrary numbers in the variables it changes), so what is shown of each entry holds for each iteration."""
    if isinstance(v, (dict, set)) or node.orelse:
        return NOTHANDLED
    seq = interp.as_seq(v)
    if not isinstance(seq, SSeq):
        return NOTHANDLED
    ctx = interp.ctx
    body = ast.Module(body=node.body, type_ignores=[])
    target = {x.id for x in ast.walk(node.target) if isinstance(x, ast.Name)}
    changed = {x.id for x in ast.walk(body) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - target
    stores = [x.targets[0].value for x in ast.walk(body) if isinstance(x, ast.Assign) and len(x.targets) == 1 and
              isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name)]
    loads = {x.id for x in ast.walk(body) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and
             not any(x is y for y in stores)}
    dicts = {y.id for y in stores}
    if dicts & (changed | loads) or any(type(fr.locals.get(d)) is not dict for d in dicts) or any(
            isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.While, ast.For, ast.Try, ast.NamedExpr, ast.comprehension, ast.Lambda))
            for x in ast.walk(body)):
        return NOTHANDLED

    carried = [c for c in changed if c in fr.locals]

    def havoc():
        for c in changed:
            if c in fr.locals:
                if c not in carried:
                    interp.assign(ast.Name(id=c, ctx=ast.Store()), Poison('loop'), fr)
                elif not isinstance(fr.locals[c], (int, SInt)) or isinstance(fr.locals[c], bool):
                    raise Unsupported('loop variable that is no number')
                else:
                    interp.assign(ast.Name(id=c, ctx=ast.Store()), SInt(z3.Int(ctx.name(c))), fr)
    havoc()
    if ctx.choose(['some', 'none'], 'iterations') == 'some':
        mark = ctx.journal.mark()
        k = z3.Int(ctx.name('k'))
        ctx.assume(z3.And(0 <= k, k < seq.n))
        interp.assign(node.target, seq.at(k), fr)
        interp.block(node.body, fr)
        own = [fr.locals[d] for d in dicts]
        own += [d[OVERLAY] for d in own if OVERLAY in d] + [o for kk, o, _, _ in ctx.journal.log[mark:] if kk == 'alloc']
        for kk, o, key, _ in ctx.journal.log[mark:]:
            if kk in ('attr', 'list', 'dict', 'cell') and not any(o is x for x in own):
                raise Unsupported('loop over the parts of an address writes %s %s' % (kk, type(o).__name__))
        havoc()
    return None


class Moment(Sym):
    """A broken-down time: its fields are numbers."""

    def attr(self, interp, name):
        return SInt(z3.Int('moment.' + name))


def connection_unit(h):
    def body():
        w = World(h)
        it = h.interp
        it.call_hook = None
        it.loop_hook = any_iteration
        for f in (time.gmtime, time.localtime):
            it.model(f, lambda i, a, k: Moment())
        it.model(time.strftime, lambda i, a, k: h.str(h.ctx.name('formatted')))
        c, k, ka = (it.alloc(object.__new__(x)) for x in (P.Credentials, P.PublicKey, P.KeyAlgorithm))
        c.__dict__.update(type=h.int('credential type'), username=h.str('username'), password=h.str('password'))
        ka.__dict__.update(cipher=h.str('cipher'), key_size=h.int('key size'))
        t = z3.Const('holder.key', R_.BYTES)
        h.ctx.assume(R_.blen(t) >= 0)
        k.__dict__.update(public_key=R_.SBytes((R_.Raw(t),)), key_algorithm=ka)
        exports = it.alloc({'REMOTE_ADDR': Address('address')})
        for x in ('REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER'):
            if h.choose(['given', 'not given'], x) == 'given':
                exports[x] = h.str(x)
        before = [dict(o.__dict__) for o in (c, k, ka, w.aa, w.issuer)]
        serial = h.int('serial', 0)
        out = h.call(it.load_attr(w.aa, '_make_con_att_set'), c, k, exports, serial, w.length)
        for o, b in zip((c, k, ka, w.aa, w.issuer), before):
            h.check('the request and the authority are left alone', all(o.__dict__.get(x) is b[x] for x in b))
        h.check('nothing is stored, opened or sent', not w.files and not w.sent and not w.db.pending and not w.db.stored)
        if out.raised:
            h.cover('may fail')
            return
        d = out.value
        if type(d) is not dict:
            raise Unsupported('connection attributes that are not a dict')
        items = [(x, v) for x, v in d.items() if x is not OVERLAY]
        if OVERLAY in d:
            o = d[OVERLAY]
            if o.unknown or type(o) is not SDict:
                raise Unsupported('connection attributes of unknown number')
            items += [(x, v) for x, v in o.entries if v is not ABSENT]
        h.cover('gives attributes')
        for name, e in items:
            h.check('each is described', type(e) is dict and {'id', 'name', 'type', 'value'} <= set(e))
            h.check('as an attribute of the connection', it.truth(it.call(it.load_attr(e['id'], 'startswith'), [CONNECTION])))
            h.check('of a type', isinstance(e['type'], A.AttributeType))
    h.run(body)


if hasattr(P.AttributeAuthority, '_make_con_att_set'):
    add_unit('C15', 'attributes of the connection', connection_unit)

for _c in CASES:
    for _a in ('outcome', 'attributes', 'completeness'):
        if _a == 'completeness' and _c == 'both requested':
            # those by name, when both kinds are requested, are beyond the solver here: left to the bounded search
            add_unit('C15', '%s: %s, those by id' % (_a, _c), lambda h, a=_a, c=_c: issue(h, a, c, 'id'))
        else:
            add_unit('C15', '%s: %s' % (_a, _c), lambda h, a=_a, c=_c: issue(h, a, c))
