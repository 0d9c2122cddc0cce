"""Refuter for attribute certificates (C11, C12, C13, C18): the real hgaa.attcert on CPython.

The oracle is the certificate's field-by-field view taken straight from the objects (view()), never the code's own
__eq__ or encoder."""
import copy
import random
import time as _time

from .base import require, loop, tb, Mismatch
from hgaa import attcert as A
from Crypto.PublicKey import RSA

FORMATS = (A.ExportFormat.BYTES, A.ExportFormat.BASE64, A.ExportFormat.BASE64FULL)
_rng = random.Random(20240)
KEYS = []


def keys():
    while len(KEYS) < 3:
        KEYS.append(RSA.generate(1024, randfunc=_rng.randbytes))
    return KEYS


def pub(k):
    return k.public_key().export_key('DER')


STRINGS = ['', 'a', 'uid-1', 'AUTH', 'näme', '漢字', 'x' * 255, 'y' * 256, 'with\nnewline', 'nul\0byte', ' ', '\0',
           'emoji😀', 'a:b', 'http://host:80/p?q=1', 'z' * 300, '7', 'None', '\x00\x00\x00\x00']
BYTES = [b'', b'\0', b'\x00\x00', b'abc', bytes(range(256)), b'\xff' * 300, b'\n', b'---- END', b'A' * 255, b'B' * 256]
INTS32 = [0, 1, 2, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 1500000000]
SERIALS = [0, 1, 255, 256, 2 ** 64 - 1, 2 ** 64, 2 ** 152, 2 ** 159, 2 ** 160 - 1, 0x0100]


def none(v):
    """Absent and empty are the same."""
    return None if v is None or len(v) == 0 else v


def b(v):
    return None if v is None or len(v) == 0 else bytes(v)


def view(c):
    """Everything a certificate says (names included), absent = empty."""
    i, h, f, r = c.issuer, c.holder, c.info, c.rev_rules
    return dict(
        issuer=(bytes(i.pub_key), i.key_algo, i.uid, none(i.name), none(i.url)),
        holder=(bytes(h.pub_key), h.key_algo, h.uid, none(h.name)),
        info=(f.version, f.serial, f.issued),
        atts=[(a.att_id, a.att_type, none(a.att_value), none(a.att_name), b(a.extra_bytes)) for a in (c.att_set or [])],
        rev=(r.valid_after, r.valid_before, none(r.url), b(r.extra_bytes)),
        dele=None if c.del_rules is None else b(c.del_rules.extra_bytes),
        exts=[(e.eid, b(e.extra_bytes)) for e in (c.extensions or [])],
        sig=None if c.signature is None or (none(c.signature.sig_value) is None and none(c.signature.sig_algo) is None)
        else (none(c.signature.sig_algo), b(c.signature.sig_value)))


def s(rng, opt=False):
    if opt and rng.random() < .3:
        return None
    if rng.random() < .6:
        return rng.choice(STRINGS)
    return ''.join(chr(rng.choice([65, 97, 48, 0, 10, 32, 233, 8364, 128512, 127, 255])) for _ in range(rng.randint(0, 12)))


def bs(rng, opt=True):
    if opt and rng.random() < .4:
        return None
    if rng.random() < .6:
        return rng.choice(BYTES)
    return rng.randbytes(rng.randint(0, 40))


def t32(rng):
    return rng.choice(INTS32) if rng.random() < .5 else rng.randint(0, 2 ** 32 - 1)


def attr(rng, i=None):
    return A.ACAttribute(s(rng) if i is None else 'att%s' % i, rng.choice(list(A.AttributeType)), s(rng, True),
                         s(rng, True), bs(rng))


def ext(rng, i=None):
    return A.ACExtensions(s(rng) if i is None else 'ext%s' % i, bs(rng))


def cert(rng, key=None, distinct=False):
    pk = pub(key) if key is not None else (bs(rng, False))
    na = rng.choice([0, 0, 1, 2, 3, 5])
    ne = rng.choice([0, 0, 1, 2, 3])
    atts = [attr(rng, i if distinct else None) for i in range(na)]
    exts = [ext(rng, i if distinct else None) for i in range(ne)]
    if na == 0 and rng.random() < .5:
        atts = None
    if ne == 0 and rng.random() < .5:
        exts = None
    sig = None
    if key is None and rng.random() < .5:
        sig = A.ACSignature(s(rng) or 'RSA', bs(rng, False) or b'sig')
    d = rng.choice([None, A.ACDelegationRules(None), A.ACDelegationRules(rng.choice(BYTES[1:])), A.ACDelegationRules(b'del')])
    return A.AttributeCertificate(
        A.ACIssuer(pk, s(rng), s(rng), s(rng, True), s(rng, True)), A.ACHolder(bs(rng, False), s(rng), s(rng), s(rng, True)),
        A.ACInformation(rng.randint(0, 255), rng.choice(SERIALS) if rng.random() < .5 else rng.getrandbits(160), t32(rng)),
        atts, A.ACRevocationRules(t32(rng), t32(rng), s(rng, True), bs(rng)), d, exts, sig)


def plain(key=None, natt=2, next_=2):
    """A fixed ordinary certificate with distinct identifiers and every part filled."""
    c = A.AttributeCertificate(
        A.ACIssuer(pub(key) if key else b'key', 'RSA:1024', 'aa.uid', 'aa name', 'http://aa/'),
        A.ACHolder(b'holderkey', 'RSA:2048', 'user.uid', 'user name'), A.ACInformation(1, 77, 1000),
        [A.ACAttribute('id%d' % i, A.AttributeType.STRING, 'val%d' % i, 'name%d' % i, b'xx%d' % i) for i in range(natt)],
        A.ACRevocationRules(1000, 5000, 'http://rev/', b'revx'), A.ACDelegationRules(b'delx'),
        [A.ACExtensions('ext%d' % i, b'extb%d' % i) for i in range(next_)], None)
    return c


def describe(c):
    try:
        return repr(view(c))[:1500]
    except Exception as e:
        return '%s (view failed: %s)' % (type(c).__name__, e)


# ------------------------------------------------------------------------------------------------------------ C11
def roundtrip(c, st):
    v0 = view(c)
    for f in FORMATS:
        try:
            data = c.export_ac(f)
        except Exception:
            continue
        require(view(c) == v0, 'exporting changed the certificate', format=f, before=v0, after=describe(c))
        try:
            kept = bytes(data) if isinstance(data, (bytes, bytearray)) else data
            back = A.AttributeCertificate.import_ac(data, f)
        except Exception as e:
            raise Mismatch('exported certificate can not be imported', format=f, certificate=v0, error=tb(e))
        st.case(('rt', f, repr(v0)[:200]), v0)
        require(type(back) is A.AttributeCertificate and safe(back) == v0,
                'imported certificate differs from the exported one', format=f, exported=v0, imported=describe(back))
        if f == A.ExportFormat.BYTES:
            for extra in (b'\0', b'\0\0\0\0', b'x'):
                try:
                    got = A.AttributeCertificate.import_ac(bytearray(kept + extra), f)
                except Exception:
                    continue
                raise Mismatch('trailing bytes accepted', certificate=v0, extra=extra, imported=describe(got))
        if f == A.ExportFormat.BASE64FULL and isinstance(data, str):
            try:
                back = A.AttributeCertificate.import_ac(data.encode('utf-8'), f)
            except Exception as e:
                raise Mismatch('framed certificate given as bytes can not be imported', certificate=v0, error=tb(e))
            require(safe(back) == v0, 'framed certificate given as bytes differs', exported=v0, imported=describe(back))


def safe(c):
    try:
        return view(c)
    except Exception as e:
        return 'incomplete certificate: %r' % e


def c11_fixed(st):
    rng = random.Random(3)
    base = plain()
    roundtrip(base, st)
    base.signature = A.ACSignature('RSASSA', b'sig')
    roundtrip(base, st)
    for field, vals in (('issuer', STRINGS), ('holder', STRINGS)):
        for at in ('key_algo', 'uid', 'name', 'url'):
            for v in vals + [None]:
                c = plain()
                o = getattr(c, field)
                if hasattr(o, at) and not (v is None and at in ('key_algo', 'uid')):
                    setattr(o, at, v)
                    roundtrip(c, st)
        for v in BYTES + [b'k' * 65535, b'k' * 65536, b'k' * 32768, b'k' * 32767]:
            c = plain()
            getattr(c, field).pub_key = v
            roundtrip(c, st)
    for v in SERIALS + [2 ** 160, -1]:
        c = plain()
        c.info.serial = v
        roundtrip(c, st)
    for v in INTS32 + [2 ** 32, -1, 2 ** 40]:
        for o, at in (('info', 'issued'), ('rev_rules', 'valid_after'), ('rev_rules', 'valid_before')):
            c = plain()
            setattr(getattr(c, o), at, v)
            roundtrip(c, st)
    for v in (0, 1, 127, 128, 255, 256, -1):
        c = plain()
        c.info.version = v
        roundtrip(c, st)
    for n in (0, 1, 2, 3, 255, 256, 257, 300, 1000):
        roundtrip(plain(None, n, 1), st)
        roundtrip(plain(None, 1, n), st)
    for t in A.AttributeType:
        for at, vals in (('att_id', STRINGS), ('att_value', STRINGS + [None, 'v' * 65535, 'v' * 65536]),
                         ('att_name', STRINGS + [None]), ('extra_bytes', BYTES + [None])):
            for v in vals:
                c = plain(None, 3)
                c.att_set[1].att_type = t
                setattr(c.att_set[1], at, v)
                roundtrip(c, st)
    for v in STRINGS + [None]:
        c = plain()
        c.rev_rules.url = v
        roundtrip(c, st)
        if v is not None:
            c = plain()
            c.extensions[0].eid = v
            roundtrip(c, st)
            c = plain()
            c.signature = A.ACSignature(v or 'R', b's')
            roundtrip(c, st)
    for v in BYTES + [None, b'z' * 65535]:
        for at in ('rev_rules', 'del_rules'):
            c = plain()
            getattr(c, at).extra_bytes = v
            roundtrip(c, st)
        c = plain()
        c.extensions[1].extra_bytes = v
        roundtrip(c, st)
        if v:
            c = plain()
            c.signature = A.ACSignature('R', v)
            roundtrip(c, st)
    for at in ('del_rules', 'att_set', 'extensions'):
        c = plain()
        setattr(c, at, None)
        roundtrip(c, st)


def c11_random(rng, st):
    roundtrip(cert(rng), st)


# ------------------------------------------------------------------------------------------------------------ C12
def mutations(c, rng=None):
    """(name, changed copy) for single changes of the content."""
    other = pub(keys()[1])

    def m(name, f):
        d = copy.deepcopy(c)
        if f(d) is not False:
            out.append((name, d))
    out = []
    for o in ('issuer', 'holder'):
        for at in ('uid', 'key_algo', 'name', 'url'):
            if hasattr(getattr(c, o), at):
                m('%s.%s changed' % (o, at), lambda d: setattr(getattr(d, o), at, (getattr(getattr(d, o), at) or '') + 'x'))
                m('%s.%s removed' % (o, at), lambda d: setattr(getattr(d, o), at, '' if at in ('uid', 'key_algo') else None))
    m('issuer key replaced', lambda d: setattr(d.issuer, 'pub_key', other))
    m('holder key replaced', lambda d: setattr(d.holder, 'pub_key', bytes(d.holder.pub_key) + b'x'))
    m('holder key flipped', lambda d: setattr(d.holder, 'pub_key', bytes([(d.holder.pub_key[0] ^ 1)]) +
                                              bytes(d.holder.pub_key[1:])) if d.holder.pub_key else False)
    m('version', lambda d: setattr(d.info, 'version', (d.info.version + 1) % 256))
    m('serial', lambda d: setattr(d.info, 'serial', d.info.serial ^ 1))
    m('serial high', lambda d: setattr(d.info, 'serial', d.info.serial ^ (1 << 159)))
    for o, at in (('info', 'issued'), ('rev_rules', 'valid_after'), ('rev_rules', 'valid_before')):
        m('%s.%s' % (o, at), lambda d: setattr(getattr(d, o), at, getattr(getattr(d, o), at) ^ 1))
        m('%s.%s high' % (o, at), lambda d: setattr(getattr(d, o), at, getattr(getattr(d, o), at) ^ (1 << 31)))

    def swap_times(d):
        r = d.rev_rules
        r.valid_after, r.valid_before = r.valid_before, r.valid_after
    m('validity times swapped', swap_times)
    m('revocation address', lambda d: setattr(d.rev_rules, 'url', (d.rev_rules.url or '') + 'x'))
    m('revocation extension', lambda d: setattr(d.rev_rules, 'extra_bytes', bytes(d.rev_rules.extra_bytes or b'') + b'x'))
    m('delegation', lambda d: setattr(d, 'del_rules', A.ACDelegationRules(
        bytes(d.del_rules.extra_bytes if d.del_rules and d.del_rules.extra_bytes else b'') + b'x')))
    m('delegation removed', lambda d: setattr(d, 'del_rules', None))
    for i in range(len(c.att_set or [])):
        a = lambda d: d.att_set[i]
        m('attribute %d id' % i, lambda d: setattr(a(d), 'att_id', a(d).att_id + 'x'))
        m('attribute %d value' % i, lambda d: setattr(a(d), 'att_value', (a(d).att_value or '') + 'x'))
        m('attribute %d value removed' % i, lambda d: setattr(a(d), 'att_value', None))
        m('attribute %d name' % i, lambda d: setattr(a(d), 'att_name', (a(d).att_name or '') + 'x'))
        m('attribute %d type' % i, lambda d: setattr(a(d), 'att_type', A.AttributeType((a(d).att_type.value + 1) % 6)))
        m('attribute %d extension' % i, lambda d: setattr(a(d), 'extra_bytes', bytes(a(d).extra_bytes or b'') + b'x'))
        m('attribute %d removed' % i, lambda d: d.att_set.pop(i) and None)
        m('attribute %d duplicated' % i, lambda d: d.att_set.insert(i, copy.deepcopy(a(d))))

        def vn(d):
            x = a(d)
            v, n = x.att_value or '', x.att_name or ''
            x.att_value, x.att_name = n, v
        m('attribute %d value and name swapped' % i, vn)

        def shift(d):
            x = a(d)
            if not x.att_value:
                return False
            x.att_name = x.att_value[-1] + (x.att_name or '')
            x.att_value = x.att_value[:-1]
        m('attribute %d boundary moved' % i, shift)
    if c.att_set and len(c.att_set) > 1:
        m('attributes reordered', lambda d: d.att_set.reverse())
        m('attributes rotated', lambda d: d.att_set.append(d.att_set.pop(0)))
    m('attribute added', lambda d: setattr(d, 'att_set', list(d.att_set or []) + [A.ACAttribute('n', A.AttributeType.INT, '1')]))
    m('all attributes removed', lambda d: setattr(d, 'att_set', None))
    for i in range(len(c.extensions or [])):
        m('extension %d id' % i, lambda d: setattr(d.extensions[i], 'eid', d.extensions[i].eid + 'x'))
        m('extension %d bytes' % i, lambda d: setattr(d.extensions[i], 'extra_bytes', bytes(d.extensions[i].extra_bytes or b'') + b'x'))
        m('extension %d bytes removed' % i, lambda d: setattr(d.extensions[i], 'extra_bytes', None))
        m('extension %d removed' % i, lambda d: d.extensions.pop(i) and None)
    if c.extensions and len(c.extensions) > 1:
        m('extensions reordered', lambda d: d.extensions.reverse())
    m('extension added', lambda d: setattr(d, 'extensions', list(d.extensions or []) + [A.ACExtensions('n', b'')]))

    def iss_shift(d):
        if not d.issuer.name:
            return False
        d.issuer.url = d.issuer.name[-1] + (d.issuer.url or '')
        d.issuer.name = d.issuer.name[:-1]
    m('issuer boundary moved', iss_shift)

    def hold_shift(d):
        if not d.holder.uid:
            return False
        d.holder.name = d.holder.uid[-1] + (d.holder.name or '')
        d.holder.uid = d.holder.uid[:-1]
    m('holder boundary moved', hold_shift)
    return out


def content(c):
    v = view(c)
    v.pop('sig')
    return v


def verifies(c, what):
    try:
        r = c.verify_signature()
    except Exception:
        return False
    require(r is True or r is False, 'verify_signature returned neither True nor False', got=r, case=what)
    return r


def signed_ok(c, key, st, what):
    try:
        c.sign(key)
    except Exception as e:
        try:
            c.export_ac()
        except Exception:
            return False
        raise Mismatch('signing failed', case=what, certificate=describe(c), error=tb(e))
    st.case(('sign', what, repr(content(c))[:100]), content(c))
    require(verifies(c, what), 'certificate signed with the private key of its issuer does not verify', case=what,
            certificate=describe(c))
    for f in FORMATS:
        data = c.export_ac(f)
        try:
            d = A.AttributeCertificate.import_ac(data, f, True)
        except Exception as e:
            raise Mismatch('signed certificate is refused on import', format=f, case=what, certificate=describe(c), error=tb(e))
        require(verifies(d, what), 'imported signed certificate does not verify', format=f, certificate=describe(c))
    return True


def tampered(c, st, muts=None):
    base = content(c)
    for name, d in (mutations(c) if muts is None else muts):
        if content(d) == base:
            continue
        st.case(('tamper', name, repr(base)[:60]), name)
        require(not verifies(d, name), 'a changed certificate still verifies', change=name, certificate=describe(d))
        for f in FORMATS:
            try:
                data = d.export_ac(f)
            except Exception:
                continue
            try:
                got = A.AttributeCertificate.import_ac(data, f, True)
            except Exception:
                continue
            raise Mismatch('import with verification accepts a changed certificate', change=name, format=f,
                           certificate=describe(got))


def unsigned(c, st):
    k = keys()
    for sig in (None, A.ACSignature(None, None), A.ACSignature('RSA', None), A.ACSignature(None, b'x'),
                A.ACSignature('RSA', b'x'), A.ACSignature('', b''), A.ACSignature('RSASSA-PKCS1-v1_5:SHA256', b'\0' * 128)):
        d = copy.deepcopy(c)
        d.signature = sig
        st.case(('unsigned', repr(sig and vars(sig))), None)
        require(not verifies(d, 'unsigned'), 'certificate without a valid signature verifies', signature=repr(sig and vars(sig)))
        for f in FORMATS:
            try:
                data = d.export_ac(f)
            except Exception:
                continue
            try:
                got = A.AttributeCertificate.import_ac(data, f, True)
            except Exception:
                continue
            raise Mismatch('import with verification accepts a certificate without a valid signature', format=f,
                           signature=repr(sig and vars(sig)))
    d = copy.deepcopy(c)
    d.sign(k[1])
    require(not verifies(d, 'wrong key'), 'certificate signed with another key verifies')
    for at in ('issuer.pub_key', 'issuer.key_algo'):
        d = copy.deepcopy(c)
        d.sign(k[0])
        setattr(d.issuer, at.split('.')[1], None)
        require(not verifies(d, at), 'certificate without %s verifies' % at)


def export_sign(c, st):
    k = keys()
    for f in FORMATS + (A.ExportFormat.TEXT,):
        for prior in (None, 'stale'):
            d = copy.deepcopy(c)
            d.signature = None
            if prior:
                d.sign(k[0])
                d.info.serial ^= 5
            try:
                d.export_ac(f, sign=True)
            except Exception:
                pass
            else:
                raise Mismatch('exporting with signing but without a private key succeeds', format=f)
            d = copy.deepcopy(c)
            if prior:
                d.sign(k[0])
                d.info.serial ^= 5
            data = d.export_ac(f, sign=True, prvi_key=k[0])
            st.case(('exportsign', f, prior), None)
            require(verifies(d, 'export sign'), 'exporting with signing leaves a certificate that does not verify', format=f)
            if f in FORMATS:
                try:
                    got = A.AttributeCertificate.import_ac(data, f, True)
                except Exception as e:
                    raise Mismatch('data exported with signing is refused', format=f, prior=prior, error=tb(e))
                require(safe(got) == view(d), 'data exported with signing differs', format=f, got=describe(got))


def flip(c, st, rng, n):
    """Bit flips of the exported bytes."""
    data = bytes(c.export_ac())
    base = view(c)
    for _ in range(n):
        i = rng.randrange(len(data))
        x = bytearray(data)
        x[i] ^= 1 << rng.randrange(8)
        try:
            got = A.AttributeCertificate.import_ac(x, A.ExportFormat.BYTES, True)
        except Exception:
            continue
        st.case(('flip', i), None)
        v = view(got)
        same = dict(v)
        s0 = dict(base)
        # the name of the signature algorithm is not signed content
        same['sig'] = same['sig'] and same['sig'][1]
        s0['sig'] = s0['sig'] and s0['sig'][1]
        require(same == s0, 'import with verification accepts altered data', offset=i, got=v)


def c12_fixed(st):
    k = keys()
    c = plain(k[0], 3, 3)
    unsigned(c, st)
    export_sign(c, st)
    signed_ok(c, k[0], st, 'plain')
    tampered(c, st)
    c = plain(k[0], 0, 0)
    c.del_rules = None
    signed_ok(c, k[0], st, 'small')
    tampered(c, st)
    # sign, change, sign again; the issuer's key exchanged and the certificate signed with the new key
    c = plain(k[0], 1, 1)
    c.sign(k[0])
    c.att_set.append(A.ACAttribute('later', A.AttributeType.INT, '1', 'n'))
    require(not verifies(c, 'attribute appended'), 'certificate verifies after an attribute was appended')
    signed_ok(c, k[0], st, 'signed again')
    c.issuer.pub_key = pub(k[1])
    require(not verifies(c, 'issuer key'), 'certificate verifies under another key')
    signed_ok(c, k[1], st, 'new key')
    for _ in range(2):
        require(verifies(c, 'again'), 'verification is not repeatable')
    a = plain(k[0], 1, 0)
    bb = plain(k[0], 2, 0)
    a.sign(k[0])
    bb.signature = a.signature
    require(not verifies(bb, 'transplanted'), 'a signature taken from another certificate verifies')
    # big certificates: every attribute is signed
    c = plain(k[0], 300, 260)
    c.sign(k[0])
    for i in (0, 1, 254, 255, 256, 299):
        d = copy.deepcopy(c)
        d.att_set[i].att_value = 'changed'
        require(not verifies(d, 'attribute %d' % i), 'a changed certificate still verifies', change='attribute %d of 300' % i)
    for i in (0, 255, 259):
        d = copy.deepcopy(c)
        d.extensions[i].extra_bytes = b'changed'
        require(not verifies(d, 'extension %d' % i), 'a changed certificate still verifies', change='extension %d of 260' % i)
    for big in (32768, 65535):
        d = plain(k[0], 1, 1)
        d.att_set[0].att_value = 'v' * big
        d.sign(k[0])
        tampered(d, st, [(n, x) for n, x in mutations(d) if 'attribute 0' in n or 'delegation' in n])


def c12_random(rng, st):
    k = keys()
    key = k[0]
    c = cert(rng, key)
    if not signed_ok(c, key, st, 'random'):
        return
    ms = mutations(c)
    tampered(c, st, rng.sample(ms, min(8, len(ms))))
    flip(c, st, rng, 10)


# ------------------------------------------------------------------------------------------------------------ C13
class Clock:
    def __init__(self, t):
        self.t = t

    def __enter__(self):
        self.old = _time.time
        _time.time = lambda: self.t

    def __exit__(self, *a):
        _time.time = self.old


def window(va, vb, now, st):
    c = plain()
    c.rev_rules = A.ACRevocationRules(va, vb)
    require(c.rev_rules.valid_after == va and c.rev_rules.valid_before == vb, 'explicit times are not kept',
            given=(va, vb), got=(c.rev_rules.valid_after, c.rev_rules.valid_before))
    want = va < now < vb
    st.case(('win', va, vb, now), (va, vb, now))
    got = c.verify_time(now)
    require(got is want, 'validity at an explicit time is wrong', valid_after=va, valid_before=vb, now=now, got=got, expected=want)
    for frac in (0, .25, .75):
        with Clock(now + frac):
            got = c.verify_time()
        require(got is want, 'validity at the current time is wrong', valid_after=va, valid_before=vb, clock=now + frac, got=got,
                expected=want)


def defaults(t, st):
    st.case(('def', t), t)
    sec = int(t)
    with Clock(t):
        i = A.ACInformation()
        require(i.issued == sec and type(i.issued) is int, 'default issue time is not the current second', clock=t, got=i.issued)
        require(0 <= i.serial < 2 ** 160, 'default serial number out of range', got=i.serial)
        r = A.ACRevocationRules()
        require((r.valid_after, r.valid_before) == (sec, sec + 86400), 'default validity is not one day from now', clock=t,
                got=(r.valid_after, r.valid_before))
        for v in (0, 1, 7, sec, sec - 1, sec + 86400, sec + 90000, 2 ** 32 - 1):
            r = A.ACRevocationRules(valid_after=v)
            require((r.valid_after, r.valid_before) == (v, sec + 86400), 'default end of validity is not one day from now', clock=t,
                    valid_after=v, got=(r.valid_after, r.valid_before))
            r = A.ACRevocationRules(valid_before=v)
            require((r.valid_after, r.valid_before) == (sec, v), 'default start of validity is not now', clock=t, valid_before=v,
                    got=(r.valid_after, r.valid_before))
            i = A.ACInformation(serial=v)
            require((i.serial, i.issued) == (v, sec), 'explicit serial number is not kept', serial=v, got=(i.serial, i.issued))
            i = A.ACInformation(issued=v)
            require(i.issued == v, 'explicit issue time is not kept', issued=v, got=i.issued)
            i = A.ACInformation(3, v, v)
            require((i.version, i.serial, i.issued) == (3, v, v), 'explicit information is not kept', given=v,
                    got=(i.version, i.serial, i.issued))


def c13_fixed(st):
    vals = [0, 1, 2, 99, 100, 101, 86399, 86400, 86401, 1500000000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
    for va in vals:
        for vb in vals:
            for now in sorted({0, va - 1, va, va + 1, vb - 1, vb, vb + 1, (va + vb) // 2}):
                if now >= 0:
                    window(va, vb, now, st)
    for t in (0, 0.5, 1, 1e9, 1500000000.999, 2 ** 31 + .5, 86400, 59.9):
        defaults(t, st)
    a, b2 = A.ACInformation(), A.ACInformation()
    require(a.serial != b2.serial, 'default serial numbers are not random')


def c13_random(rng, st):
    va = rng.randint(0, 2 ** 32)
    vb = va + rng.randint(-3, 200000)
    window(va, vb, rng.choice([va, vb, va - 1, va + 1, vb - 1, vb + 1, rng.randint(0, 2 ** 33)]), st)
    defaults(rng.random() * 2 ** 32, st)


# ------------------------------------------------------------------------------------------------------------ C18
def eqview(c):
    """What equality is defined on: names of issuer and holder are not part of it, lists are unordered."""
    v = dict(view_raw(c))
    return v


def view_raw(c):
    i, h, f, r = c.issuer, c.holder, c.info, c.rev_rules
    return dict(issuer=(i.pub_key, i.key_algo, i.uid, i.url), holder=(h.pub_key, h.key_algo, h.uid),
                info=(f.version, f.serial, f.issued),
                atts=sorted(((a.att_id, a.att_type.value, a.att_value, a.att_name, a.extra_bytes) for a in (c.att_set or [])), key=repr),
                rev=(r.valid_after, r.valid_before, r.url, r.extra_bytes),
                dele=None if c.del_rules is None else c.del_rules.extra_bytes,
                exts=sorted(((e.eid, e.extra_bytes) for e in (c.extensions or [])), key=repr),
                sig=(None, None) if c.signature is None else (c.signature.sig_algo, c.signature.sig_value))


def cmp(a, b_, st, what):
    want = view_raw(a) == view_raw(b_)
    for x, y, d in ((a, b_, ''), (b_, a, ' (other way round)')):
        try:
            got = x == y
            ne = x != y
        except Exception as e:
            raise Mismatch('comparing two certificates fails', case=what, left=describe(x), right=describe(y), error=tb(e))
        st.case((what, want, repr(view_raw(a))[:60]), what)
        require(got is want and ne is (not want), 'wrong equality%s' % d, case=what, left=describe(x), right=describe(y),
                got=(got, ne), expected=want)


def distinct_ids(c):
    a = [x.att_id for x in c.att_set or []]
    e = [x.eid for x in c.extensions or []]
    return len(set(a)) == len(a) and len(set(e)) == len(e)


def empty_free(c):
    """Optional byte strings and texts are absent or non-empty."""
    for o in [c.issuer, c.holder, c.rev_rules] + list(c.att_set or []) + list(c.extensions or []) + \
            ([c.del_rules] if c.del_rules else []) + ([c.signature] if c.signature else []):
        for k, v in vars(o).items():
            if v == '' or v == b'':
                if k in ('key_algo', 'uid', 'att_id', 'eid', 'pub_key'):
                    continue
                setattr(o, k, None)
    return c


def variants(c, rng):
    yield 'copy', copy.deepcopy(c)
    for name, d in mutations(c):
        if distinct_ids(d):
            yield name, empty_free(d)

    def v(name, f):
        d = copy.deepcopy(c)
        f(d)
        return name, empty_free(d)
    for at in ('del_rules', 'signature', 'att_set', 'extensions'):
        yield v('%s absent' % at, lambda d: setattr(d, at, None))
    yield v('empty delegation rules', lambda d: setattr(d, 'del_rules', A.ACDelegationRules(None)))
    yield v('empty signature', lambda d: setattr(d, 'signature', A.ACSignature(None, None)))
    yield v('no attributes', lambda d: setattr(d, 'att_set', []))
    yield v('no extensions', lambda d: setattr(d, 'extensions', []))
    yield v('other signature', lambda d: setattr(d, 'signature', A.ACSignature('R', b'other')))
    yield v('half signature', lambda d: setattr(d, 'signature', A.ACSignature('R', None)))
    yield v('other half signature', lambda d: setattr(d, 'signature', A.ACSignature(None, b'other')))
    yield v('issuer name', lambda d: setattr(d.issuer, 'name', 'other'))
    yield v('holder name', lambda d: setattr(d.holder, 'name', 'other'))

    def shuffle(d):
        for l in (d.att_set, d.extensions):
            if l:
                rng.shuffle(l)
    yield v('shuffled', shuffle)


def c18_cert(c, rng, st):
    vs = list(variants(c, rng))
    for name, d in vs:
        cmp(c, d, st, name)
    for _ in range(12):
        (n1, a), (n2, b_) = rng.choice(vs), rng.choice(vs)
        cmp(a, b_, st, n1 + ' / ' + n2)
    for o in (None, 1, 'x', b'', c.issuer, c.holder, c.info, c.rev_rules, object(), [], {}, A, float('nan')):
        for x, y in ((c, o), (o, c)):
            try:
                r, n = x == y, x != y
            except Exception as e:
                raise Mismatch('comparing a certificate with something else fails', other=repr(o), error=tb(e))
            require(r is False and n is True, 'a certificate equals something that is not a certificate', other=repr(o))


def c18_fixed(st):
    rng = random.Random(5)
    for na, ne in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (3, 3)):
        c = plain(None, na, ne)
        c18_cert(c, rng, st)
        c.signature = A.ACSignature('R', b's')
        c18_cert(c, rng, st)
        c.del_rules = None
        c18_cert(c, rng, st)
    c = plain(None, 1, 1)
    for at in ('extra_bytes', 'att_value', 'att_name'):
        setattr(c.att_set[0], at, None)
    c.extensions[0].extra_bytes = None
    c.rev_rules.url = c.rev_rules.extra_bytes = None
    c18_cert(c, rng, st)


def c18_random(rng, st):
    c = cert(rng, None, True)
    c18_cert(empty_free(c), rng, st)
    d = empty_free(cert(rng, None, True))
    cmp(c, d, st, 'two random certificates')


RULES = {
    'C11': 'export then import of boundary and random certificates in three formats gives the same field-by-field view',
    'C12': 'sign/verify/export/import with real RSA keys; every single change of the content must stop verification',
    'C13': 'verify_time and defaulting against the definition with a controlled clock',
    'C18': 'equality of a certificate and its variants against a field-by-field view',
}


def search(prop, tier, seed, seconds, hints, worker):
    fixed = {'C11': [c11_fixed], 'C12': [c12_fixed], 'C13': [c13_fixed], 'C18': [c18_fixed]}[prop]
    randoms = {'C11': [c11_random], 'C12': [c12_random], 'C13': [c13_random], 'C18': [c18_random]}[prop]
    return loop(prop, fixed, randoms, seed, seconds, worker, RULES[prop])
