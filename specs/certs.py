"""C11, C12, C13, C18: contracts of hgaa.attcert."""
import time
import ast
import z3
from .common import *
from engine import ropes as R_
import hgaa.attcert as A
import Crypto.Random.random as CR

ENVS = {}


def env(h, clock=None):
    """External functions: the clock (constant during one call) and the random generator."""
    it = h.interp
    t = clock if clock is not None else z3.Real(h.ctx.name('clock'))
    h.ctx.assume(t >= 0)
    it.model(time.time, lambda i, a, k: SReal(t))
    import time as tm
    if hasattr(tm, 'time_ns'):
        it.model(tm.time_ns, lambda i, a, k: mk_int(z3.ToInt(t * 1000000000)))

    def rnd(i, a, k):
        n = a[0] if a else k.get('k')
        if isinstance(n, Sym):
            raise Unsupported('getrandbits of symbolic size')
        r = z3.Int(h.ctx.name('random'))
        h.ctx.assume(z3.And(0 <= r, r < 2 ** n))
        return SInt(r)
    it.model(CR.getrandbits, rnd)
    return t


# ------------------------------------------------------------------------------------------------------------ C13
def _made(h, cls, *a, **k):
    o = h.call(cls, *a, **k)
    h.check('construction does not fail', o.kind == 'return', detail=repr(o))
    return o.value


def _window(h, mode):
    def body():
        t = env(h)
        va, vb = h.int('valid_after'), h.int('valid_before')
        rr = _made(h, A.ACRevocationRules, va, vb)
        ac = _made(h, A.AttributeCertificate, None, None, None, None, rr)
        if mode == 'clock':
            out = h.method(ac, 'verify_time') if h.choose([0, 1]) else h.method(ac, 'verify_time', None)
            now = z3.ToReal(z3.ToInt(t))
        else:
            if mode == 'int':
                v = h.int('now')
                now = z3.ToReal(v.t)
            else:
                v = h.real('now')
                now = v.t
            out = h.method(ac, 'verify_time', v) if h.choose([0, 1]) else h.method(ac, 'verify_time', now=v)
        h.check('no exception', out.kind == 'return', detail=repr(out))
        r = out.value
        h.check('answer is a truth value', isinstance(r, (bool, SBool)), detail=repr(r))
        want = z3.And(z3.ToReal(va.t) < now, now < z3.ToReal(vb.t))
        h.check('in force exactly inside the open interval', bool_term(r) == want)
        h.check('the period is unchanged', z3.And(h.eq(h.get(rr, 'valid_after'), va), h.eq(h.get(rr, 'valid_before'), vb)))
        h.cover('reachable')
    h.run(body)


for _m in ('int', 'float', 'clock'):
    add_unit('C13', 'validity window, time given as %s' % _m, lambda h, m=_m: _window(h, m))


@unit('C13', 'explicit values are kept')
def _explicit(h):
    def body():
        t = env(h)
        va, vb, se, iss, ver = (h.int(n) for n in ('va', 'vb', 'serial', 'issued', 'version'))
        url = h.choose([None, h.str('url')])
        rr = _made(h, A.ACRevocationRules, va, vb, url)
        h.check('validity period kept', z3.And(h.eq(h.get(rr, 'valid_after'), va), h.eq(h.get(rr, 'valid_before'), vb)))
        i = _made(h, A.ACInformation, ver, se, iss)
        h.check('information kept', z3.And(h.eq(h.get(i, 'version'), ver), h.eq(h.get(i, 'serial'), se), h.eq(h.get(i, 'issued'), iss)))
        i = _made(h, A.ACInformation, version=ver, serial=se)
        h.check('serial kept', z3.And(h.eq(h.get(i, 'version'), ver), h.eq(h.get(i, 'serial'), se)))
        h.check('dated to the current second', h.eq(h.get(i, 'issued'), SInt(z3.ToInt(t))))
        i = _made(h, A.ACInformation, version=ver, issued=iss)
        h.check('issue time kept', z3.And(h.eq(h.get(i, 'version'), ver), h.eq(h.get(i, 'issued'), iss)))
        h.cover('reachable')
    h.run(body)


@unit('C13', 'default times')
def _default(h):
    def body():
        t = env(h)
        now = SInt(z3.ToInt(t))
        day = SInt(now.t + 86400)
        rr = _made(h, A.ACRevocationRules)
        h.check('runs for one day from the current second',
                z3.And(h.eq(h.get(rr, 'valid_after'), now), h.eq(h.get(rr, 'valid_before'), day)))
        v = h.int('given')
        rr = _made(h, A.ACRevocationRules, valid_after=v)
        h.check('default end', z3.And(h.eq(h.get(rr, 'valid_after'), v), h.eq(h.get(rr, 'valid_before'), day)))
        rr = _made(h, A.ACRevocationRules, valid_before=v)
        h.check('default start', z3.And(h.eq(h.get(rr, 'valid_after'), now), h.eq(h.get(rr, 'valid_before'), v)))
        i = _made(h, A.ACInformation)
        h.check('dated to the current second', h.eq(h.get(i, 'issued'), now))
        s = h.get(i, 'serial')
        h.check('serial number within 160 bits', z3.And(int_term(s) >= 0, int_term(s) < 2 ** 160))
        h.cover('reachable')
    h.run(body)


@unit('C13', 'the validity answer depends only on the revocation rules')
def _frame(h):
    """verify_time neither changes the certificate nor looks at other parts (they are arbitrary objects here)."""
    def body():
        env(h)
        va, vb, now = h.int('va'), h.int('vb'), h.int('now')
        rr = _made(h, A.ACRevocationRules, va, vb)
        parts = [Opaque('issuer'), Opaque('holder'), Opaque('info'), Opaque('atts')]
        ac = _made(h, A.AttributeCertificate, parts[0], parts[1], parts[2], parts[3], rr)
        before = [(o, dict(o.__dict__)) for o in (ac, rr)]
        out = h.method(ac, 'verify_time', now)
        h.check('no exception', out.kind == 'return', detail=repr(out))
        w = [k for o, d in before for k in d if o.__dict__.get(k) is not d[k]]
        h.check('no part of the certificate is changed', not w, detail=repr(w))
        h.check('window', bool_term(out.value) == z3.And(va.t < now.t, now.t < vb.t))
    h.run(body)


# ------------------------------------------------------------------------------------------------------------ C11
# Parts: (field, kind); kinds: bytes/str (required), bytes?/str? (absent = empty), int, enum.
PARTS = {
    A.ACIssuer: [('pub_key', 'bytes'), ('key_algo', 'str'), ('uid', 'str'), ('name', 'str?'), ('url', 'str?')],
    A.ACHolder: [('pub_key', 'bytes'), ('key_algo', 'str'), ('uid', 'str'), ('name', 'str?')],
    A.ACInformation: [('version', 'int'), ('serial', 'int'), ('issued', 'int')],
    A.ACAttribute: [('att_id', 'str'), ('att_type', 'enum'), ('att_value', 'str?'), ('att_name', 'str?'), ('extra_bytes', 'bytes?')],
    A.ACRevocationRules: [('valid_after', 'int'), ('valid_before', 'int'), ('url', 'str?'), ('extra_bytes', 'bytes?')],
    A.ACDelegationRules: [('extra_bytes', 'bytes?')],
    A.ACExtensions: [('eid', 'str'), ('extra_bytes', 'bytes?')],
    A.ACSignature: [('sig_algo', 'str?'), ('sig_value', 'bytes?')],
}


def new_bytes(h, name):
    t = z3.Const(h.ctx.name(name), R_.BYTES)
    h.ctx.assume(R_.blen(t) >= 0)
    return R_.SBytes((R_.Raw(t),))


def new_field(h, name, kind):
    if kind.endswith('?'):
        if h.choose([0, 1], name) == 0:
            return None
    k = kind.rstrip('?')
    if k == 'bytes':
        return new_bytes(h, name)
    if k == 'str':
        return h.str(name)
    if k == 'int':
        return h.int(name)
    return h.enum(A.AttributeType, name)


def empty(h, v):
    if v is None:
        return z3.BoolVal(True)
    if isinstance(v, (str, SStr)):
        return h.eq(v, '')
    if isinstance(v, (bytes, bytearray, R_.SBytes)):
        return R_.length(h.interp, R_.rope_of(v)) == 0
    return z3.BoolVal(False)


def kind_ok(kind, v):
    k = kind.rstrip('?')
    if v is None:
        return kind.endswith('?')
    t = pytype_of(v)
    return {'bytes': t in (bytes, bytearray), 'str': t is str, 'int': t is int, 'enum': t is A.AttributeType}[k]


def same_field(h, what, f, kind, v, w):
    """w says the same as v."""
    h.check('%s: %s is the same kind of value' % (what, f), kind_ok(kind, w), detail=repr((v, w)))
    if kind.endswith('?'):
        h.check('%s: %s is absent only if it was' % (what, f), empty(h, v) == empty(h, w))
        if v is not None and w is not None:
            h.check('%s: %s is the same' % (what, f), z3.Or(empty(h, v), h.eq(v, w)), detail=repr((v, w)))
    else:
        h.check('%s: %s is the same' % (what, f), h.eq(v, w), detail=repr((v, w)))


def make_part(h, cls):
    vals = [new_field(h, f, k) for f, k in PARTS[cls]]
    return _made(h, cls, **dict((f, v) for (f, k), v in zip(PARTS[cls], vals))), vals


def part_round_trip(h, cls):
    def body():
        env(h)
        p, vals = make_part(h, cls)
        for (f, k), v in zip(PARTS[cls], vals):
            same_field(h, 'constructed', f, k, v, h.get(p, f))
        before = dict(p.__dict__)
        out = h.method(p, 'encode')
        h.check('encoding leaves the part unchanged', p.__dict__ == before if not contains_sym(before) else
                all(p.__dict__.get(k) is v for k, v in before.items()) and len(p.__dict__) == len(before))
        if out.raised:
            h.cover('encoding may fail')
            return
        e = out.value
        h.check('the encoding is a byte string', pytype_of(e) in (bytes, bytearray), detail=repr(e))
        rest = new_bytes(h, 'rest')
        buf = R_.SByteArray(R_.norm(R_.rope_of(e) + rest.rope))
        o = h.call(cls.decode, buf)
        h.check('decoding does not fail', not o.raised, detail=repr(o))
        q = o.value
        h.check('decoding yields the same kind of part', type(q) is cls)
        for (f, k), v in zip(PARTS[cls], vals):
            same_field(h, 'decoded', f, k, v, h.get(q, f))
        h.check('decoding consumes exactly the encoding', h.eq(buf, rest), detail=repr(buf))
        if cls is A.ACSignature:
            return                      # not part of what is signed
        o = h.method(q, 'encode')
        h.check('the decoded part encodes', not o.raised, detail=repr(o))
        h.check('the decoded part has the same encoding', h.eq(o.value, e))
        h.cover('reachable')
    h.run(body)


for _c in PARTS:
    add_unit('C11', 'round trip of %s' % _c.__name__, lambda h, c=_c: part_round_trip(h, c))


# Certificates.  Issuer, holder, attributes, revocation rules and extensions are known by the contract of their
# encode()/decode() (proved above for each kind of part); the other parts are executed.
SORTS = {'bytes': R_.BYTES, 'str': V.S, 'int': V.I, 'enum': V.I}
CONTRACT = (A.ACIssuer, A.ACHolder, A.ACAttribute, A.ACRevocationRules, A.ACExtensions)
EVERY = tuple(PARTS)


def fn_of(cls, name):
    f = getattr(cls, name)
    return getattr(f, '__func__', f)


class Field(Lazy):
    """Field of a part; val is the value once read."""

    def __init__(self, make):
        def remember():
            self.val = make()
            return self.val
        self.val = self
        Lazy.__init__(self, remember)


class Family:
    """The parts name(arg), one for each value of the argument."""

    def __init__(self, h, cls, name, arg=None):
        self.h, self.cls, self.name, self.arg = h, cls, name, arg

    def fn(self, f, sort):
        n = '%s.%s' % (self.name, f)
        if self.arg is None:
            return z3.Const(n, sort)
        return z3.Function(n, self.arg.sort(), sort)(self.arg)

    def key(self):
        return (self.cls.__name__, self.name, '' if self.arg is None else self.arg.sexpr())

    def value(self, f, kind):
        h = self.h
        if kind.endswith('?') and h.ctx.branch(self.fn(f + '.absent', V.B)):
            return None
        k = kind.rstrip('?')
        t = self.fn(f, SORTS[k])
        if k == 'bytes':
            if not h.ctx.entails(R_.blen(t) >= 0):
                h.ctx.assume(R_.blen(t) >= 0)
            return R_.SBytes((R_.Raw(t),))
        if k == 'str':
            return mk_str([ZS(t)])
        if k == 'int':
            return SInt(t)
        h.ctx.assume(z3.Or([t == m.value for m in A.AttributeType]))
        return h.interp.mk_enum(A.AttributeType, t)


def mentions_generic(t):
    return 'rep!k' in t.sexpr()


class Parts:
    """Parts known by contract."""

    def __init__(self, h, fails=None, contract=CONTRACT):
        self.h = h
        self.contract = contract
        self.reg = {}
        self.fails = fails          # key prefix of the part whose encoding fails
        self.may_fail = False
        it = h.interp
        self.enc = {fn_of(c, 'encode') for c in contract}
        self.dec = {fn_of(c, 'decode'): c for c in contract}
        it.call_hook = self.hook

    def part(self, fam):
        return self.register(fam, {f: Field(lambda f=f, k=k: fam.value(f, k)) for f, k in PARTS[fam.cls]})

    def register(self, fam, fields, src=None):
        o = self.h.interp.alloc(object.__new__(fam.cls))
        for f, v in fields.items():
            o.__dict__[f] = v
        self.reg[id(o)] = (o, fam, dict(fields))
        return o

    def unchanged(self, o):
        """The part still says what it said when made."""
        if id(o) not in self.reg:
            return False
        _, fam, fields = self.reg[id(o)]
        return set(o.__dict__) == set(fields) and \
            all(o.__dict__[f] is v or o.__dict__[f] is getattr(v, 'val', None) for f, v in fields.items())

    def hook(self, interp, f, args, kwargs):
        if f in self.enc and args and type(args[0]) in self.contract and len(args) == 1 and not kwargs and \
                f is fn_of(type(args[0]), 'encode'):
            return self.encode(args[0])
        if f in self.dec:
            cls = self.dec[f]
            a = [x for x in args if x is not cls] + list(kwargs.values())
            if len(a) == 1 and isinstance(a[0], R_.SByteArray):
                return self.decode(cls, a[0])
        return NOTHANDLED

    def encode(self, o):
        h = self.h
        if id(o) not in self.reg:
            return NOTHANDLED
        if not self.unchanged(o):
            raise Unsupported('a part is changed before it is encoded')
        fam = self.reg[id(o)][1]
        fail = None
        if self.fails is not None and fam.name == self.fails[0]:
            fail = fam.arg is None or not mentions_generic(fam.arg) and h.ctx.branch(fam.arg == self.fails[1])
        elif self.may_fail:
            fail = not h.ctx.branch(fam.fn('encodable', V.B))
        if fail:
            import struct
            h.interp.raise_py(struct.error('the part has no encoding'))
        n = fam.fn('length', V.I)

        def peek(interp):
            raise Unsupported('the encoding of a part is looked into')
        return R_.SBytes((R_.Part(fam.key(), n, peek, fam),))

    def decode(self, cls, buf):
        h = self.h
        ctx = h.ctx
        r = list(R_.norm(buf.rope))
        while r and not isinstance(r[0], (bytes, R_.Part)) and ctx.entails(R_.plen(h.interp, r[0]) == 0):
            r.pop(0)
        if r and isinstance(r[0], R_.Rep) and ctx.entails(r[0].lo < r[0].hi):
            r[0:1] = list(R_.norm(R_.expand_rep(h.interp, r[0])))
        if r and isinstance(r[0], R_.Part) and r[0].obj.cls is cls:
            fam = r[0].obj
            ctx.set_cell(buf, 'rope', R_.norm(r[1:]))

            def norm_field(f, kind):
                v = fam.value(f, kind)
                if v is not None and kind.endswith('?') and ctx.branch(empty(h, v)):
                    return None
                return v
            return self.register(fam, {f: Field(lambda f=f, k=k: norm_field(f, k)) for f, k in PARTS[cls]})
        # anything else: decoding fails or yields some part
        t = r[0].t if len(r) == 1 and isinstance(r[0], R_.Raw) else R_.fresh_raw(h.interp, None, 'front').t
        name = cls.__name__ + '.in'
        if not ctx.branch(z3.Function(name + '.ok', R_.BYTES, V.B)(t)):
            import struct
            h.interp.raise_py(struct.error('no such part'))
        ctx.set_cell(buf, 'rope', (R_.Raw(z3.Function(name + '.rest', R_.BYTES, R_.BYTES)(t)),))
        return self.part(Family(h, cls, name, t))


class Cert:
    """A certificate of unknown content."""

    def __init__(self, h, parts, atts=('none', 'empty', 'many'), exts=('none', 'empty', 'many'), sig=True):
        self.h, self.parts = h, parts
        self.fam = {}
        mk = self.single
        self.issuer, self.holder, self.rev = mk(A.ACIssuer, 'issuer'), mk(A.ACHolder, 'holder'), mk(A.ACRevocationRules, 'rev')
        self.info = [h.int(n) for n in ('version', 'serial', 'issued')]
        info = _made(h, A.ACInformation, *self.info)
        self.atts, self.natts = self.many(A.ACAttribute, 'att', h.choose(list(atts), 'attributes'))
        self.exts, self.nexts = self.many(A.ACExtensions, 'ext', h.choose(list(exts), 'extensions'))
        self.dele = h.choose([None, 'none', 'bytes'], 'delegation')
        d = None
        if self.dele is not None:
            self.dele = None if self.dele == 'none' else new_bytes(h, 'delegation')
            d = _made(h, A.ACDelegationRules, self.dele)
        self.sig = (None, None)
        s = None
        if sig and h.choose([0, 1], 'signature'):
            self.sig = (h.str('sig_algo'), new_bytes(h, 'sig_value'))
            s = _made(h, A.ACSignature, *self.sig)
        self.obj = _made(h, A.AttributeCertificate, self.issuer, self.holder, info, self.atts, self.rev, d, self.exts, s)

    def single(self, cls, name):
        f = self.fam[name] = Family(self.h, cls, name)
        return self.parts.part(f)

    def many(self, cls, name, what):
        if what == 'none':
            return None, z3.IntVal(0)
        if what == 'empty':
            return [], z3.IntVal(0)
        h = self.h
        n = z3.Int(h.ctx.name('n' + name))
        h.ctx.assume(n >= 1)
        seq = SSeq(n, lambda i: self.parts.part(Family(h, cls, name, i)), list, name)
        return [Seg(seq)], n

    # ---- the content of another certificate is the same
    def compare(self, o, what, sig=True):
        h = self.h
        h.check('%s: is a certificate' % what, type(o) is A.AttributeCertificate)
        for f, name in (('issuer', 'issuer'), ('holder', 'holder'), ('rev_rules', 'rev')):
            self.same_part('%s: %s' % (what, f), h.get(o, f), self.fam[name].cls, self.fam[name].key())
        i = h.get(o, 'info')
        h.check('%s: has certificate information' % what, type(i) is A.ACInformation)
        for (f, k), v in zip(PARTS[A.ACInformation], self.info):
            same_field(h, what, f, k, v, h.get(i, f))
        self.same_seq('%s: attributes' % what, h.get(o, 'att_set'), A.ACAttribute, 'att', self.natts)
        self.same_seq('%s: extensions' % what, h.get(o, 'extensions'), A.ACExtensions, 'ext', self.nexts)
        d = h.get(o, 'del_rules')
        h.check('%s: delegation rules are of their kind' % what, d is None or type(d) is A.ACDelegationRules)
        same_field(h, what, 'delegation rules', 'bytes?', self.dele, None if d is None else h.get(d, 'extra_bytes'))
        if sig:
            s = h.get(o, 'signature')
            h.check('%s: the signature is of its kind' % what, s is None or type(s) is A.ACSignature)
            for (f, k), v in zip(PARTS[A.ACSignature], self.sig):
                same_field(h, what, f, k, v, None if s is None else h.get(s, f))

    def same_part(self, what, o, cls, key):
        h = self.h
        h.check('%s is of its kind' % what, type(o) is cls, detail=repr(o))
        if self.parts.unchanged(o):
            h.check('%s is the same' % what, self.parts.reg[id(o)][1].key() == key, detail=repr((self.parts.reg[id(o)][1].key(), key)))
            return
        f, k = h.choose(PARTS[cls], 'field')
        fam = Family(h, cls, key[1], None)
        same_field(h, what, f, k, fam.value(f, k), h.get(o, f))

    def same_seq(self, what, l, cls, name, n):
        h = self.h
        h.check('%s are a list or absent' % what, l is None or isinstance(l, (list, tuple)), detail=repr(l))
        m = z3.IntVal(0) if l is None else int_term(V.mk_int(h.interp.length_term(l)))
        h.check('%s: as many as before' % what, m == n)
        if z3.is_int_value(n) and n.as_long() == 0:
            return
        k = z3.Int(h.ctx.name('index'))
        h.ctx.assume(z3.And(0 <= k, k < n))
        e = h.interp.as_seq(l).at(k)
        h.check('%s are of their kind' % what, type(e) is cls, detail=repr(e))
        h.check('%s are not changed' % what, self.parts.unchanged(e))
        fam = self.parts.reg[id(e)][1]
        h.check('%s are the same, in order' % what, fam.name == name and fam.arg is not None and fam.arg.sort() == V.I)
        h.check('%s are the same, in order' % what, fam.arg == k)


FORMATS = (A.ExportFormat.BYTES, A.ExportFormat.BASE64, A.ExportFormat.BASE64FULL)


def cert_round_trip(h, fmt, fails=None, **shape):
    def body():
        env(h)
        f = None
        if fails is not None:
            if fails in ('att', 'ext'):
                k0 = z3.Int(h.ctx.name('bad'))
                f = (fails, k0)
            else:
                f = (fails, None)
        parts = Parts(h, f)
        c = Cert(h, parts, **shape)
        if fails in ('att', 'ext'):
            h.ctx.assume(z3.And(0 <= k0, k0 < (c.natts if fails == 'att' else c.nexts)))
        out = h.method(c.obj, 'export_ac', fmt) if h.choose([0, 1], 'call') else h.method(c.obj, 'export_ac', format=fmt)
        c.compare(c.obj, 'exporting leaves the certificate unchanged')
        if out.raised:
            h.cover('exporting may fail')
            return
        data = out.value
        if isinstance(data, (bytes, bytearray)):
            data = R_.SByteArray(R_.rope_of(data))
        h.check('the export is data', pytype_of(data) in (bytes, bytearray, str), detail=repr(data))
        o = h.call(A.AttributeCertificate.import_ac, data, fmt)
        h.check('importing does not fail', not o.raised, detail=repr(o))
        c.compare(o.value, 'imported')
        h.cover('reachable')
    h.run(body)


MANY, ALL = ('many',), ('none', 'empty', 'many')
for _a in ALL:
    add_unit('C11', 'round trip of a certificate as BYTES, attributes: %s' % _a,
             lambda h, a=_a: cert_round_trip(h, A.ExportFormat.BYTES, atts=(a,)))
for _f in FORMATS[1:]:
    add_unit('C11', 'round trip of a certificate as %s' % _f.name, lambda h, f=_f: cert_round_trip(h, f, atts=MANY, exts=MANY))
for _p in ('issuer', 'holder', 'rev', 'att', 'ext'):
    add_unit('C11', 'certificate with a part (%s) that has no encoding' % _p,
             lambda h, p=_p: cert_round_trip(h, A.ExportFormat.BYTES, p, atts=MANY, exts=MANY, sig=False))


def leftover(h, fmt):
    def body():
        env(h)
        c = Cert(h, Parts(h), atts=MANY, exts=('none', 'many'))
        out = h.method(c.obj, 'export_ac', A.ExportFormat.BYTES)
        if out.raised:
            return
        extra = new_bytes(h, 'extra')
        h.ctx.assume(R_.blen(extra.rope[0].t) > 0)
        data = R_.SByteArray(R_.norm(R_.rope_of(out.value) + extra.rope))
        if fmt is A.ExportFormat.BASE64:
            data = R_.SBytes((R_.B64(data.rope),))
        o = h.call(A.AttributeCertificate.import_ac, data, fmt)
        h.check('bytes left over after the certificate are refused', o.raised, detail=repr(o))
        h.cover('reachable')
    h.run(body)


for _f in FORMATS[:2]:
    add_unit('C11', 'left-over bytes, %s' % _f.name, lambda h, f=_f: leftover(h, f))


# ------------------------------------------------------------------------------------------------------------ C12
# RSASSA-PKCS1-v1_5 and SHA-256 are assumed: a hash is a function of the byte string hashed; verification is a
# predicate of public key, hash and signature; a signature made with a private key satisfies it under the public key.
from Crypto.Hash import SHA256  # noqa
from Crypto.PublicKey import RSA  # noqa
from Crypto.Signature import pkcs1_15  # noqa

KEY = z3.DeclareSort('Key')
DIGEST = z3.DeclareSort('Digest')
key_ok = z3.Function('rsa.key', R_.BYTES, V.B)
key_of = z3.Function('rsa.public', R_.BYTES, KEY)
pub_of = z3.Function('rsa.public.of', KEY, KEY)
digest_bytes = z3.Function('sha256.bytes', DIGEST, R_.BYTES)
undigest = z3.Function('sha256.of.bytes', R_.BYTES, DIGEST)
valid = z3.Function('rsa.valid', KEY, DIGEST, R_.BYTES, V.B)
sign_ = z3.Function('rsa.sign', KEY, DIGEST, R_.BYTES)


class SKey(Sym):
    def __init__(self, t, private):
        self.t, self.private = t, private

    def sym_eq(self, interp, o):
        if not isinstance(o, SKey) or o.private != self.private:
            return False
        return mk_bool(self.t == o.t)

    def method(self, interp, name, args, kwargs):
        if name in ('has_private',):
            return self.private
        if name in ('public_key', 'publickey'):
            return self if not self.private else SKey(pub_of(self.t), False)
        if name in ('size_in_bits', 'size_in_bytes') and not args and not kwargs:
            n = SInt(z3.Function('rsa.' + name, KEY, V.I)(self.t))
            interp.ctx.assume(n.t > 0)
            return n
        raise Unsupported('RSA key %s' % name)


class SHash(Sym):
    def __init__(self, rope, crypto):
        self.rope = tuple(rope)
        self.crypto = crypto

    def method(self, interp, name, args, kwargs):
        if name == 'update':
            interp.ctx.set_cell(self, 'rope', R_.norm(self.rope + R_.rope_of(args[0])))
            return None
        if name == 'copy':
            return SHash(self.rope, self.crypto)
        if name == 'digest':
            d = self.crypto.digest_of(self.rope)
            t = digest_bytes(d)
            interp.ctx.assume(z3.And(R_.blen(t) == 32, undigest(t) == d))
            return R_.SBytes((R_.Raw(t),))
        raise Unsupported('hash %s' % name)


class SSigner(Sym):
    def __init__(self, key, crypto):
        self.key, self.crypto = key, crypto

    def method(self, interp, name, args, kwargs):
        c = self.crypto
        if name == 'can_sign':
            return self.key.private
        if name == 'sign':
            if not self.key.private:
                interp.raise_py(TypeError('This is not a private key'))
            d = c.digest(args[0])
            t = sign_(self.key.t, d)
            interp.ctx.assume(z3.And(R_.blen(t) > 0, valid(pub_of(self.key.t), d, t)))
            return R_.SBytes((R_.Raw(t),))
        if name == 'verify':
            d = c.digest(args[0])
            s = c.bytes_term(args[1])
            k = pub_of(self.key.t) if self.key.private else self.key.t
            interp.ctx.assume(z3.Implies(valid(k, d, s), R_.blen(s) > 0))
            c.verified.append((k, args[0].rope, s))
            if not interp.ctx.branch(valid(k, d, s)):
                interp.raise_py(ValueError('Invalid signature'))
            return None
        raise Unsupported('signature scheme %s' % name)


class Crypto:
    def __init__(self, h):
        self.h = h
        self.digests = {}
        self.terms = {}
        self.verified = []
        M = h.interp.model
        M(SHA256.new, lambda i, a, k: SHash(R_.rope_of((list(a) + list(k.values()) or [b''])[0]), self))
        M(pkcs1_15.new, self.new_scheme)
        M(RSA.import_key, self.import_key)

    def new_scheme(self, interp, a, k):
        key = (list(a) + list(k.values()))[0]
        if not isinstance(key, SKey):
            raise Unsupported('signature scheme of %r' % (key,))
        return SSigner(key, self)

    def digest_of(self, rope):
        """The hash of a byte string: one constant for each byte string."""
        rope = self.flat(rope)
        k = R_.rope_key(rope)
        if k not in self.digests:
            d = z3.Const('sha256!%d' % len(self.digests), DIGEST)
            for r2, d2 in self.digests.values():
                e = R_.rope_eq(self.h.interp, rope, r2)
                self.h.ctx.assume(z3.Implies(bool_term(e), d == d2))
            self.digests[k] = (rope, d)
        return self.digests[k][1]

    def flat(self, rope):
        """Without pieces that are empty, numbers that are known written out."""
        it = self.h.interp
        out = []
        for p in R_.norm(rope):
            if not isinstance(p, (bytes, R_.Num, R_.Flt)) and self.h.ctx.entails(R_.plen(it, p) == 0):
                continue
            if isinstance(p, R_.Num) and p.n <= 4 and not z3.is_int_value(p.t) and self.h.ctx.entails(p.t == 0):
                p = bytes(p.n)
            out.append(p)
        return R_.norm(out)

    def digest(self, x):
        if not isinstance(x, SHash):
            raise Unsupported('hash object %r' % (x,))
        return self.digest_of(x.rope)

    def bytes_term(self, v):
        r = R_.norm(R_.rope_of(v))
        if len(r) == 1 and isinstance(r[0], R_.Raw):
            return r[0].t
        k = R_.rope_key(r)
        if k not in self.terms:
            self.terms[k] = z3.Const('bytes!%d' % len(self.terms), R_.BYTES)
            self.h.ctx.assume(R_.blen(self.terms[k]) == R_.length(self.h.interp, r))
        return self.terms[k]

    def import_key(self, interp, a, k):
        v = (list(a) + list(k.values()))[0]
        if not isinstance(v, (bytes, bytearray, R_.SBytes)):
            raise Unsupported('RSA.import_key of %r' % (v,))
        t = self.bytes_term(v)
        interp.ctx.assume(z3.Implies(key_ok(t), R_.blen(t) > 0))
        if not interp.ctx.branch(key_ok(t)):
            interp.raise_py(ValueError('RSA key format is not supported'))
        return SKey(key_of(t), False)


def issuer_key(c):
    """Term of the public key in the issuer section."""
    return c.fam['issuer'].fn('pub_key', R_.BYTES)


SMALL = dict(atts=MANY, exts=('none', 'many'))


def covers_content(h, c, rope, what):
    """The byte string determines the whole content: decoding it gives the content back."""
    buf = R_.SByteArray(R_.norm(tuple(rope) + (b'\0\0\0\0',)))
    o = h.call(A.AttributeCertificate.decode, buf)
    h.check('%s: what is hashed decodes' % what, not o.raised, detail=repr(o))
    c.compare(o.value, '%s: what is hashed determines the content' % what, sig=False)


@unit('C12', 'verification')
def _verify(h):
    """verify_signature() is True exactly if the signature is valid for the hash of the complete content."""
    def body():
        env(h)
        cr = Crypto(h)
        c = Cert(h, Parts(h), **SMALL)
        out = h.method(c.obj, 'verify_signature')
        aspect = h.choose(['frame', 'True only if', 'True if'])
        if aspect == 'frame':
            c.compare(c.obj, 'verifying leaves the certificate unchanged')
            return
        yes = not out.raised and (out.value if isinstance(out.value, bool) else None)
        h.check('the answer is a truth value', out.raised or isinstance(out.value, bool), detail=repr(out))
        if aspect == 'True only if':
            if yes is not True:
                h.cover('may be refused')
                return
            h.check('only with a signature', c.sig[1] is not None)
            h.check('something was verified', len(cr.verified) > 0)
            k, rope, s = cr.verified[-1]
            h.check('under the key of the issuer', z3.And(key_ok(issuer_key(c)), k == key_of(issuer_key(c))))
            h.check('the signature of the certificate', s == cr.bytes_term(c.sig[1]))
            h.check('it is valid', valid(k, cr.digest_of(rope), s))
            covers_content(h, c, rope, 'verification')
            h.cover('may be accepted')
            return
        # an encodable certificate with a valid signature
        if c.sig[1] is None:
            return
        b = h.method(c.obj, 'encode')
        if b.raised:
            return
        if not cr.verified:
            h.check('a signature is checked if the key is one',
                    z3.Not(z3.And(key_ok(issuer_key(c)), R_.blen(cr.bytes_term(c.sig[1])) > 0,
                                  z3.Not(h.eq(c.sig[0], '')),
                                  c.fam['issuer'].fn('key_algo', V.S) != z3.StringVal(''))))
            return
        k, rope, s = cr.verified[-1]
        h.check('a valid signature is accepted', z3.Or(z3.BoolVal(yes is True), z3.Not(valid(
            key_of(issuer_key(c)), cr.digest_of(rope), cr.bytes_term(c.sig[1])))))
    h.run(body)


def with_missing(h, what):
    def body():
        env(h)
        Crypto(h)
        c = Cert(h, Parts(h), atts=MANY, exts=('none',), sig=False)
        s = None
        if what == 'value':
            s = _made(h, A.ACSignature, h.str('algo'), None)
        elif what != 'signature':
            s = _made(h, A.ACSignature, h.str('algo'), new_bytes(h, 'sig'))
        h.interp.store_attr(c.obj, 'signature', s)
        if what == 'issuer':
            h.interp.store_attr(c.obj, 'issuer', None)
        if what == 'key':
            h.interp.store_attr(c.obj, 'issuer', _made(h, A.ACIssuer, None, h.str('algo'), h.str('uid')))
        out = h.method(c.obj, 'verify_signature')
        h.check('a certificate without %s does not verify' % what, out.raised or out.value is False, detail=repr(out))
        h.cover('reachable')
    h.run(body)


for _w in ('signature', 'value', 'issuer', 'key'):
    add_unit('C12', 'verification without %s' % _w, lambda h, w=_w: with_missing(h, w))


def private_key(h, c, own=True):
    sk = z3.Const(h.ctx.name('key'), KEY)
    if own:
        b = issuer_key(c)
        h.ctx.assume(z3.And(key_ok(b), key_of(b) == pub_of(sk), R_.blen(b) > 0))
    return SKey(sk, True)


def sign_verify(h, how):
    """Signing with the issuer's key, directly or while exporting, then verifying (also after import)."""
    def body():
        env(h)
        cr = Crypto(h)
        c = Cert(h, Parts(h), **SMALL)
        key = private_key(h, c)
        algo = h.choose([None, 'given'], 'algorithm')
        a = []
        if algo:
            s = h.str('algo')
            h.ctx.assume(z3.Not(h.eq(s, '')))
            a = [s]
        target = c.obj
        if how == 'sign':
            out = h.method(c.obj, 'sign', key, *a)
            if out.raised:
                return
        else:
            out = h.method(c.obj, 'export_ac', how, True, key, *a)
            if out.raised:
                return
        c.compare(c.obj, 'signing leaves the content unchanged', sig=False)
        sg = h.get(c.obj, 'signature')
        h.check('the certificate carries a signature', type(sg) is A.ACSignature)
        if algo:
            h.check('the signature names the algorithm', h.eq(h.get(sg, 'sig_algo'), a[0]))
        if how != 'sign':
            data = out.value
            o = h.call(A.AttributeCertificate.import_ac, data, how, h.choose([False, True], 'verify'))
            h.check('the signed export is imported', not o.raised, detail=repr(o))
            c.compare(o.value, 'imported', sig=False)
            target = o.value
        o = h.method(target, 'verify_signature')
        h.check('a certificate signed with the key of its issuer verifies', o.kind == 'return' and o.value is True, detail=repr(o))
        h.cover('reachable')
    h.run(body)


for _w in ('sign',) + FORMATS:
    add_unit('C12', 'sign and verify, %s' % getattr(_w, 'name', _w), lambda h, w=_w: sign_verify(h, w))


@unit('C12', 'what is signed')
def _signed(h):
    """Signing hashes the complete content with the given key."""
    def body():
        env(h)
        cr = Crypto(h)
        c = Cert(h, Parts(h), **SMALL)
        key = private_key(h, c, False)
        out = h.method(c.obj, 'sign', key)
        if out.raised:
            return
        sg = h.get(c.obj, 'signature')
        h.check('the certificate carries a signature', type(sg) is A.ACSignature)
        t = cr.bytes_term(h.get(sg, 'sig_value'))
        h.check('the signature is one made with the key', z3.is_app(t) and t.decl().eq(sign_) and t.arg(0).eq(key.t))
        ropes = [r for r, d in cr.digests.values() if d.eq(t.arg(1))]
        h.check('the signature is of a hash computed here', len(ropes) == 1)
        covers_content(h, c, ropes[0], 'signing')
        h.cover('reachable')
    h.run(body)


def no_key(h, fmt):
    def body():
        env(h)
        Crypto(h)
        c = Cert(h, Parts(h), atts=MANY, exts=('none',))
        m = h.choose([0, 1], 'call')
        out = h.method(c.obj, 'export_ac', fmt, True) if m else h.method(c.obj, 'export_ac', format=fmt, sign=True, prvi_key=None)
        h.check('signing without a private key fails', out.raised, detail=repr(out))
        h.cover('reachable')
    h.run(body)


for _f in A.ExportFormat:
    add_unit('C12', 'signed export as %s without a key' % _f.name, lambda h, f=_f: no_key(h, f))


def checked_import(h, fmt):
    """Whatever the data: a certificate imported with verification requested verifies."""
    def body():
        env(h)
        cr = Crypto(h)
        p = Parts(h, contract=EVERY)
        p.may_fail = True
        data = new_bytes(h, 'data')
        if fmt is A.ExportFormat.BYTES:
            data = R_.SByteArray(data.rope)
        elif fmt is A.ExportFormat.BASE64FULL:
            data = mk_str(['---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: BASE64\nVERSION: 1\n', R_.BS(data.rope), '\n---- END ATTRIBUTE CERTIFICATE ----'])
        a = [data, fmt] + ([True] if fmt is A.ExportFormat.BASE64 else [])
        o = h.call(A.AttributeCertificate.import_ac, *a, **({} if len(a) == 3 else {'verify': True}))
        if o.raised:
            h.cover('data may be refused')
            return
        v = h.method(o.value, 'verify_signature')
        h.check('what is imported with verification verifies', v.kind == 'return' and v.value is True, detail=repr(v))
        h.cover('data may be accepted')
    h.run(body)


for _f in FORMATS:
    add_unit('C12', 'import with verification, %s' % _f.name, lambda h, f=_f: checked_import(h, f))


def decode_anything(h, cls):
    """Decoding arbitrary bytes fails or yields a part with fields of the right kinds."""
    def body():
        env(h)
        buf = R_.SByteArray(new_bytes(h, 'data').rope)
        o = h.call(cls.decode, buf)
        if o.raised:
            h.cover('may fail')
            return
        h.check('a part of this kind', type(o.value) is cls)
        f, k = h.choose(PARTS[cls], 'field')
        h.check('the field has a value of its kind', kind_ok(k, h.get(o.value, f)))
        h.cover('may succeed')
    h.run(body)


for _c in PARTS:
    add_unit('C12', 'decoding arbitrary bytes as %s' % _c.__name__, lambda h, c=_c: decode_anything(h, c))


# ------------------------------------------------------------------------------------------------------------ C18
NAMES = {A.ACIssuer: ('name',), A.ACHolder: ('name',)}        # not compared


def eq_fields(cls):
    return [(f, k) for f, k in PARTS[cls] if f not in NAMES.get(cls, ())]


def fam_eq(a, b):
    """Both parts say the same (as a term)."""
    out = []
    for f, k in eq_fields(a.cls):
        t = a.fn(f, SORTS[k.rstrip('?')]) == b.fn(f, SORTS[k.rstrip('?')])
        if k.endswith('?'):
            x, y = a.fn(f + '.absent', V.B), b.fn(f + '.absent', V.B)
            t = z3.And(x == y, z3.Or(x, t))
        out.append(t)
    return z3.And(out)


def part_equality(h, cls):
    """part == part exactly if they agree in the compared fields."""
    def body():
        env(h)
        ps, vals = [], []
        for n in 'pq':
            vs = []
            for f, k in PARTS[cls]:
                v = new_field(h, f, k)
                if k.endswith('?') and v is not None:
                    h.ctx.assume(z3.Not(empty(h, v)))
                vs.append(v)
            ps.append(_made(h, cls, **dict((f, v) for (f, k), v in zip(PARTS[cls], vs))))
            vals.append(vs)
        if h.choose([0, 1], 'order'):
            vals.reverse()
            ps.reverse()
        want = []
        for (f, k), v, w in zip(PARTS[cls], *vals):
            if f not in NAMES.get(cls, ()):
                want.append(z3.BoolVal(v is None and w is None) if v is None or w is None else h.eq(v, w))
        o = h.call(ModelFn(lambda i, a, kw: i.eq(*a)), *ps)
        h.check('comparing does not fail', not o.raised, detail=repr(o))
        h.check('equal exactly if all compared fields are', bool_term(o.value) == z3.And(want))
        h.cover('reachable')
    h.run(body)


for _c in PARTS:
    add_unit('C18', 'equality of %s' % _c.__name__, lambda h, c=_c: part_equality(h, c))


class EqParts(Parts):
    """Parts known by the contract of their ==."""

    whole, whole_used = None, False

    def hook(self, interp, f, args, kwargs):
        if self.whole is not None and f is fn_of(A.AttributeCertificate, '__eq__') and args[0] is not args[1]:
            self.whole_used = True
            return mk_bool(self.whole)
        if len(args) == 2 and not kwargs and all(id(a) in self.reg for a in args):
            a, b = (self.reg[id(x)][1] for x in args)
            if a.cls is b.cls and f is fn_of(a.cls, '__eq__') and self.unchanged(args[0]) and self.unchanged(args[1]):
                return mk_bool(fam_eq(a, b))
        return NOTHANDLED


class Side:
    """One of two certificates; its parts are decided when they are first looked at."""

    def __init__(self, h, parts, tag, distinct=True):
        self.h, self.parts, self.tag, self.forms = h, parts, tag, {}
        self.fams = {n: Family(h, cls, tag + n) for n, cls in (('issuer', A.ACIssuer), ('holder', A.ACHolder),
                                                              ('info', A.ACInformation), ('rev', A.ACRevocationRules))}
        self.obj = _made(h, A.AttributeCertificate, *[parts.part(self.fams[n]) for n in ('issuer', 'holder', 'info')],
                         None, parts.part(self.fams['rev']))
        self.seen = {}
        for n, mk in (('att_set', lambda: self.many(A.ACAttribute, 'att', 'att_id')),
                      ('extensions', lambda: self.many(A.ACExtensions, 'ext', 'eid')),
                      ('del_rules', lambda: self.optional(A.ACDelegationRules, 'del')),
                      ('signature', lambda: self.optional(A.ACSignature, 'sig'))):
            self.obj.__dict__[n] = Lazy(lambda n=n, mk=mk: self.decide(n, mk))

    def decide(self, n, mk):
        v, self.seen[n] = mk()
        return v

    def optional(self, cls, name):
        fam = Family(self.h, cls, self.tag + name)
        what = self.forms.get(name) or self.h.choose(['absent', 'empty', 'some'], name)
        flags = [fam.fn(f + '.absent', V.B) for f, k in PARTS[cls]]
        if what == 'absent':
            return None, None
        self.h.ctx.assume(z3.And(flags) if what == 'empty' else z3.Not(z3.And(flags)))
        return self.parts.part(fam), None if what == 'empty' else fam

    def many(self, cls, name, key):
        h = self.h
        what = h.choose(['none', 'empty', 'many'], name)
        if what != 'many':
            return (None if what == 'none' else []), (z3.IntVal(0), None, None)
        n = z3.Int(self.tag + name + '.n')
        h.ctx.assume(n >= 1)
        g = lambda i: Family(h, cls, self.tag + name, i)
        # identifiers are distinct: there is a function from them to the position
        pos = z3.Function('%s%s.pos' % (self.tag, name), V.S, V.I)
        i = z3.Int('%si' % self.tag)
        h.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pos(g(i).fn(key, V.S)) == i), patterns=[g(i).fn(key, V.S)]))
        return [Seg(SSeq(n, lambda i: self.parts.part(g(i)), list, name))], (n, g, lambda p: pos(p.fn(key, V.S)))


def expected_eq(h, x, y):
    """What has to hold for the certificates to say the same; an arbitrary truth value for what was not looked at."""
    out = [fam_eq(x.fams[n], y.fams[n]) for n in x.fams]
    for n in ('del_rules', 'signature', 'att_set', 'extensions'):
        if n not in x.seen or n not in y.seen:
            out.append(z3.Bool(h.ctx.name('unseen')))
            continue
        a, b = x.seen[n], y.seen[n]
        if n in ('del_rules', 'signature'):
            out.append(z3.BoolVal(a is None and b is None) if a is None or b is None else fam_eq(a, b))
            continue
        (k, g, _), (m, f, pos) = a, b
        if g is None or f is None:
            out.append(z3.BoolVal(g is None and f is None))
            continue
        out.append(k == m)
        # each element equals one of the other list: the only candidate is the one with the same identifier
        out.append(lambda i, k=k, g=g, m=m, f=f, pos=pos: z3.Implies(z3.And(0 <= i, i < k), z3.And(
            0 <= pos(g(i)), pos(g(i)) < m, fam_eq(g(i), f(pos(g(i)))))))
    return out


def all_of(want):
    i = z3.Int('i!want')
    return z3.And([z3.ForAll([i], w(i)) if callable(w) else w for w in want])


def compare_certs(h, op, forms=None):
    def body():
        env(h)
        parts = EqParts(h, contract=EVERY)
        x, y = Side(h, parts, 'a.'), Side(h, parts, 'b.')
        if forms:
            x.forms = dict(zip(('del', 'sig'), forms))
        else:
            parts.whole = z3.Bool('the certificates are equal')
        o = h.call(ModelFn(lambda i, a, k: i.compare(op, *a)), x.obj, y.obj)
        h.check('comparing does not fail', not o.raised, detail=repr(o))
        h.check('the answer is a truth value', isinstance(o.value, (bool, SBool)), detail=repr(o.value))
        r = bool_term(o.value) if isinstance(op, ast.Eq) else z3.Not(bool_term(o.value))
        want = [parts.whole] if parts.whole_used else expected_eq(h, x, y)
        if h.choose(['only if', 'if']) == 'only if':
            for w in want:
                h.check('equal only if they say the same', z3.Implies(r, w(z3.Int(h.ctx.name('i'))) if callable(w) else w))
        else:
            h.check('equal if they say the same', z3.Implies(all_of(want), r))
        h.cover('reachable')
    h.run(body)


FORMS = ('absent', 'empty', 'some')
for _d in FORMS:
    for _s in FORMS:
        add_unit('C18', 'equality of certificates (delegation rules %s, signature %s)' % (_d, _s),
                 lambda h, f=(_d, _s): compare_certs(h, ast.Eq(), f))
add_unit('C18', 'inequality of certificates', lambda h: compare_certs(h, ast.NotEq()))


@unit('C18', 'a certificate equals itself')
def _self_eq(h):
    def body():
        env(h)
        parts = EqParts(h, contract=EVERY)
        x = Side(h, parts, 'a.')
        o = h.call(ModelFn(lambda i, a, k: i.compare(ast.Eq(), *a)), x.obj, x.obj)
        h.check('comparing does not fail', not o.raised, detail=repr(o))
        h.check('a certificate equals itself', bool_term(o.value))
        h.cover('reachable')
    h.run(body)


@unit('C18', 'other objects')
def _other(h):
    def body():
        env(h)
        parts = EqParts(h, contract=EVERY)
        x = Side(h, parts, 'a.')
        what = h.choose(['none', 'int', 'str', 'bytes', 'object', 'list', 'dict', 'issuer', 'holder', 'info', 'rev', 'att', 'del', 'ext', 'sig'])
        v = {'none': None, 'int': h.int('n'), 'str': h.str('s'), 'bytes': new_bytes(h, 'b'), 'object': object(), 'list': [], 'dict': {}}.get(what)
        cls = {'issuer': A.ACIssuer, 'holder': A.ACHolder, 'info': A.ACInformation, 'rev': A.ACRevocationRules,
               'att': A.ACAttribute, 'del': A.ACDelegationRules, 'ext': A.ACExtensions, 'sig': A.ACSignature}.get(what)
        if cls:
            v = parts.part(Family(h, cls, 'other'))
        a = [x.obj, v]
        op = h.choose([ast.Eq(), ast.NotEq()])
        o = h.call(ModelFn(lambda i, a, k: i.compare(op, *a)), *a)
        h.check('comparing does not fail', not o.raised, detail=repr(o))
        h.check('a certificate never equals something else', o.value is isinstance(op, ast.NotEq), detail=repr(o))
        h.cover('reachable')
    h.run(body)
