"""C14: contract of PolicyAuthority.start_session."""
import time
import base64
from .services import *
import hgaa.attcert as A
import hgaa.schema.pauth as S
import hgaa.services.pauth as P

DAY = 86400

cert_fn = lambda name, sort: z3.Function('cert.' + name, R_.BYTES, V.I, sort)
sigvalid = cert_fn('signature.valid', V.B)
SUPPORTED = (A.ExportFormat.BYTES.value, A.ExportFormat.BASE64.value, A.ExportFormat.BASE64FULL.value)
key_ok_t = z3.Function('rsa.key.text', V.S, V.B)
key_of_t = z3.Function('rsa.public.text', V.S, K.KEY)


class Attachment(Sym):
    """The uploaded data; reading consumes it."""
    elem_part = True

    def __init__(self, t):
        self.t = t
        self.taken = False

    def method(self, interp, name, args, kwargs):
        if name != 'read' or args or kwargs:
            raise Unsupported('attachment.%s' % name)
        if self.taken:
            raise Unsupported('attachment read twice')
        interp.ctx.set_cell(self, 'taken', True)
        return R_.SBytes((R_.Raw(self.t),))


class World:
    """The policy authority, its store and the request."""

    def __init__(self, h, request='certificates'):
        self.h = h
        it = h.interp
        self.clock = K.env(h)
        self.now = z3.ToInt(self.clock)
        self.cr = K.Crypto(h)
        it.model(K.RSA.import_key, self.import_key)
        self.aa = Table(h, S.AttributeAuthority)
        self.aa.keys = {'uid'}
        self.aa.unique('uid', V.S)
        self.ac = Table(h, S.AttributeCertificate, dict(serial=self.row_serial, hash=self.row_hash))
        self.ac.keys = {'serial'}
        self.ac.unique('number', V.I)
        self.tables = {S.AttributeAuthority: self.aa, S.AttributeCertificate: self.ac, S.Session: Table(h, S.Session),
                       S.AttributeCertificateAssignment: Table(h, S.AttributeCertificateAssignment)}
        self.db = DB(h, self.tables)
        self.pa = it.alloc(object.__new__(P.PolicyAuthority))
        for a in ('name', 'uid', 'url'):
            self.pa.__dict__[a] = h.str(a)
        self.sessions = 0
        self.pa.__dict__['_db_session'] = ModelFn(lambda i, a, k: self.db)
        it.call_hook = self.hook
        it.loop_hook = self.loop
        # the request
        self.n = h.int('certificates', 0).t
        self.j = z3.Int('j')
        it.focus = (self.j, self.n)
        self.certs = SSeq(self.n, self.elem, list, 'certificates')
        self.cert_objs = {}

    # ---- the store
    def row_serial(self, interp, row):
        t = self.ac.fn('number', V.I)(row.i)
        if not interp.ctx.entails(z3.And(t >= 0, t < 2 ** 160)):
            interp.ctx.assume(z3.And(t >= 0, t < 2 ** 160))
        return self.serial_text(t)

    def serial_text(self, t):
        b = self.h.interp.call(self.h.interp.load_attr(SInt(t), 'to_bytes'), [20, 'little'])
        return text_b64(self.h.interp, R_.rope_of(b))

    def row_hash(self, interp, row):
        return self.hash_text(interp, R_.SBytes((R_.Raw(self.ac.term('certificate', row.i)),)))

    def hash_text(self, interp, data):
        d = interp.call(interp.load_attr(interp.call(K.SHA256.new, [data]), 'digest'))
        return text_b64(interp, R_.rope_of(d))

    # ---- the request
    def data(self, i):
        return z3.Function('data', V.I, R_.BYTES)(i)

    def format(self, i):
        return z3.Function('format', V.I, V.I)(i)

    def version(self, i):
        return z3.Function('version', V.I, V.I)(i)

    def elem(self, i):
        c = self.h.interp.alloc(object.__new__(P.AttributeCertificateType))
        t = self.data(i)
        if not self.h.ctx.entails(R_.blen(t) >= 0):
            self.h.ctx.assume(R_.blen(t) >= 0)
        c.__dict__.update(data=Attachment(t), format=SInt(self.format(i)), version=SInt(self.version(i)), _pyvc_index=i)
        return c

    # ---- contracts
    def import_key(self, interp, a, k):
        v = (list(a) + list(k.values()))[0]
        if isinstance(v, (str, SStr)):
            t = str_z3(v)
            if not interp.ctx.branch(key_ok_t(t)):
                interp.raise_py(ValueError('RSA key format is not supported'))
            return K.SKey(key_of_t(t), False)
        return self.cr.import_key(interp, a, k)

    def hook(self, interp, f, args, kwargs):
        if f is K.fn_of(A.AttributeCertificate, 'import_ac'):
            names = ('data', 'format', 'verify')
            args = [a for a in args if a is not A.AttributeCertificate]
            b = dict(zip(names, args), **kwargs)
            if len(args) > 3 or set(b) - set(names) or 'data' not in b:
                raise Unsupported('import_ac arguments')
            return self.import_ac(interp, b['data'], b.get('format', A.ExportFormat.BYTES), b.get('verify', False))
        if f is K.fn_of(A.AttributeCertificate, 'verify_signature') and id(args[0]) in self.cert_objs:
            _, d, fm = self.cert_objs[id(args[0])]
            return mk_bool(sigvalid(d, fm))
        return NOTHANDLED

    def import_ac(self, interp, data, fmt, verify):
        """Contract of import_ac (C11, C12): raises or returns the certificate that the data say in that format; with
        verify its signature is valid."""
        ctx = interp.ctx
        if not isinstance(data, (R_.SBytes,)):
            raise Unsupported('import_ac of %r' % (data,))
        d = self.cr.bytes_term(data)
        if isinstance(data, R_.SByteArray):
            t = z3.Const(ctx.name('left'), R_.BYTES)
            ctx.assume(R_.blen(t) >= 0)
            ctx.set_cell(data, 'rope', (R_.Raw(t),))
        fm = enum_term(fmt) if pytype_of(fmt) is A.ExportFormat else None
        if fm is None or ctx.choose(['fails', 'works'], 'import') == 'fails':
            interp.raise_py(ctx.choose([ValueError, Exception], 'exception')('cannot be imported'))
        if interp.truth(verify):
            ctx.assume(sigvalid(d, fm))
        ac = interp.alloc(object.__new__(A.AttributeCertificate))
        iss = interp.alloc(object.__new__(A.ACIssuer))
        kt = cert_fn('issuer.pub_key', R_.BYTES)(d, fm)
        ctx.assume(R_.blen(kt) >= 0)
        iss.__dict__.update(pub_key=R_.SBytes((R_.Raw(kt),)), uid=mk_str([ZS(cert_fn('issuer.uid', V.S)(d, fm))]),
                            key_algo=mk_str([ZS(cert_fn('issuer.key_algo', V.S)(d, fm))]), name=Opaque('name'), url=Opaque('url'))
        info = interp.alloc(object.__new__(A.ACInformation))
        nums = {n: cert_fn(n, V.I)(d, fm) for n in ('version', 'serial', 'issued', 'valid_after', 'valid_before')}
        for n, t in nums.items():
            ctx.assume(z3.And(t >= 0, t < 2 ** (160 if n == 'serial' else 64)))
        info.__dict__.update({n: SInt(nums[n]) for n in ('version', 'serial', 'issued')})
        rr = interp.alloc(object.__new__(A.ACRevocationRules))
        rr.__dict__.update(valid_after=SInt(nums['valid_after']), valid_before=SInt(nums['valid_before']),
                           url=Opaque('url'), extra_bytes=Opaque('extra'))
        ac.__dict__.update(issuer=iss, info=info, rev_rules=rr, holder=Opaque('holder'), att_set=Opaque('attributes'),
                           del_rules=Opaque('delegation'), extensions=Opaque('extensions'), signature=Opaque('signature'))
        self.cert_objs[id(ac)] = (ac, d, fm)
        return ac

    def loop(self, interp, node, fr, v):
        if isinstance(v, SSeq) or (isinstance(v, (list, tuple)) and len(v) == 1) or getattr(v, 'as_seq', None):
            seq = interp.as_seq(v)
            if seq.n.eq(self.n):
                loops.focus_loop(interp, node, fr, v, self.j, {('db', 'pending'): self.db.pending, ('db', 'stored'): self.db.stored})
                return
        return NOTHANDLED

    # ---- running
    def start(self, request):
        h = self.h
        addr = h.str('address')
        self.addr, self.service = addr, h.str('service')
        if request is None:
            s = None
        else:
            s = h.interp.alloc(object.__new__(P.AttributeCertificateSet))
            s.__dict__['attribute_certificates'] = request
        return h.call(h.interp.load_attr(self.pa, 'start_session'), self.service, s, REMOTE_ADDR=addr)

    def refused(self, out):
        h = self.h
        h.check('refused with a client fault', out.raised and isinstance(out.value, ClientFault), detail=repr(out))
        h.check('nothing is stored', not self.db.stored, detail=repr(self.db.stored))

    def rows(self, cls):
        return [r for r in self.db.stored if isinstance(r, Row) and r.cls is cls]

    def items(self):
        """What was stored, the elements appended for certificate j taken out of runs."""
        out = []
        for r in self.db.stored:
            if type(r) is Seg:
                if r.seq.n.eq(self.n):
                    out.append(r.seq.at(self.j))
                continue
            out.append(r)
        return out


@unit('C14', 'requests without certificates')
def _none(h):
    def body():
        w = World(h)
        kind = h.choose(['no set', 'no list', 'empty list', 'empty'])
        if kind == 'empty':
            h.ctx.assume(w.n == 0)
        out = w.start({'no set': None}[kind] if kind == 'no set' else {'no list': None, 'empty list': [], 'empty': w.certs}[kind])
        w.refused(out)
        h.cover('reachable')
    h.run(body)


def outcome(h, aspect):
    def body():
        w = World(h)
        h.ctx.assume(w.n >= 1)
        out = w.start(w.certs)
        if out.raised:
            if aspect == 'refusal':
                w.refused(out)
            h.cover('may be refused')
            return
        if aspect == 'refusal':
            return
        j = w.j
        h.ctx.assume(z3.And(0 <= j, j < w.n))       # any certificate of the request
        if not h.ctx.feasible():
            raise PathKill()
        d, fm = w.data(j), w.format(j)
        now = w.now
        vb, va = cert_fn('valid_before', V.I)(d, fm), cert_fn('valid_after', V.I)(d, fm)
        serial = cert_fn('serial', V.I)(d, fm)
        r = out.value
        first = h.choose([True, False], 'position')
        h.ctx.assume(j == 0 if first else j >= 1)
        if not h.ctx.feasible():
            raise PathKill()
        where = 'the first certificate' if first else 'a later certificate'
        h.check('a session is reported', type(r) is P.SessionReturn, detail=repr(out.kind))
        if aspect == 'certificates':
            h.check('the version is supported', w.version(j) == P.PolicyAuthority.AC_VERSION)
            h.check('the version supported is 1', P.PolicyAuthority.AC_VERSION == 1)
            h.check('the format is supported', z3.Or([fm == f for f in SUPPORTED]))
            h.check('the signature is valid', sigvalid(d, fm))
            h.check('the certificate is in force', z3.And(va < now, now < vb))
            i = z3.Int(h.ctx.name('authority'))
            kt = cert_fn('issuer.pub_key', R_.BYTES)(d, fm)
            known = z3.And(0 <= i, i < w.aa.n, w.aa.term('uid', i) == cert_fn('issuer.uid', V.S)(d, fm))
            h.check('the issuer is known', z3.Exists([i], known))
            h.ctx.assume(known)
            pk = w.aa.term('pub_key', i)
            h.check('the authority is trusted', w.aa.term('trust_level', i) > 0)
            h.check('the certificate is signed with the key registered',
                    z3.And(K.key_ok(kt), key_ok_t(pk), K.key_of(kt) == key_of_t(pk)))
            h.cover('may be started: ' + where)
            return
        if aspect == 'stored content':
            i = z3.Int(h.ctx.name('row'))
            h.ctx.assume(z3.And(0 <= i, i < w.ac.n, w.ac.fn('number', V.I)(i) == serial))
            h.ctx.assume(z3.And(serial >= 0, serial < 2 ** 160))
            old = w.cr.digest_of((R_.Raw(w.ac.term('certificate', i)),))
            new = w.cr.digest_of((R_.Raw(d),))
            h.check('a serial number is not used again for another content', old == new)
            h.cover('may be known already: ' + where)
            return
        till, start, sid = h.get(r, 'valid_till'), h.get(r, 'start'), h.get(r, 'session_id')
        if aspect == 'period':
            h.check('the period is given in whole seconds', pytype_of(till) is int and pytype_of(start) is int)
            h.check('the session starts now', h.eq(start, SInt(now)))
            h.check('the session ends no later than the certificate', int_term(till) <= vb)
            h.check('the session lasts at most a day', int_term(till) <= int_term(start) + DAY)
            h.cover('may be started: ' + where)
            return
        h.check('nothing remains to be committed', not w.db.pending)
        its = w.items()
        h.check('only rows are stored', all(isinstance(x, Row) for x in its))
        ss = [x for x in its if x.cls is S.Session]
        h.check('one session is stored', len(ss) == 1)
        text = w.h.interp.call(w.h.interp.load_attr(sid, 'to_bytes'), [20, 'little']) if pytype_of(sid) is int else None
        h.check('a session number is reported', text is not None)
        sid_text = text_b64(h.interp, R_.rope_of(text))
        if aspect == 'session row':
            g = lambda n: h.interp.load_attr(ss[0], n)
            h.check('the session stored is the one reported', h.eq(g('id'), sid_text))
            h.check('with the start reported', h.eq(g('session_start'), start))
            h.check('with the end reported', h.eq(g('session_valid_till'), till))
            h.check('of the service that asked', h.eq(g('service_uid'), w.service))
            h.cover('may be started: ' + where)
            return
        g = lambda x, n: h.interp.load_attr(x, n)
        serial_text = w.serial_text(serial)
        aca = [x for x in its if x.cls is S.AttributeCertificateAssignment]
        h.check('the session is bound to the certificate',
                z3.Or([z3.BoolVal(False)] + [z3.And(h.eq(g(x, 'ac_serial'), serial_text), h.eq(g(x, 'session_id'), sid_text)) for x in aca]))
        h.check('and to no other session', z3.And([z3.BoolVal(True)] + [h.eq(g(x, 'session_id'), sid_text) for x in aca]))
        acs = [x for x in its if x.cls is S.AttributeCertificate]
        i = z3.Int(h.ctx.name('row'))
        stored = z3.Exists([i], z3.And(0 <= i, i < w.ac.n, w.ac.fn('number', V.I)(i) == serial))
        content = R_.SBytes((R_.Raw(d),))
        h.check('the certificate is in the store afterwards', z3.Or([stored] + [h.eq(g(x, 'serial'), serial_text) for x in acs]))
        for x in acs:
            h.check('the certificate stored is the one submitted', z3.And(
                h.eq(g(x, 'serial'), serial_text), h.eq(g(x, 'certificate'), content),
                h.eq(g(x, 'hash'), w.hash_text(h.interp, content)),
                h.eq(g(x, 'format'), SInt(fm)), h.eq(g(x, 'version'), SInt(w.version(j))),
                h.eq(g(x, 'valid_till'), SInt(vb))))
        h.cover('may be started: ' + where)
    h.run(body)


for _a in ('refusal', 'certificates', 'stored content', 'period', 'session row', 'certificate rows'):
    add_unit('C14', 'session: ' + _a, lambda h, a=_a: outcome(h, a))
