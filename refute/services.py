"""Refuter for the services (C14 policy authority sessions, C15 attribute authority): the real service classes on CPython
with a real in-memory SQL database, real RSA signatures and bcrypt; the web framework (ladon) and the log are stubs."""
import base64
import logging
import os
import random
import shutil
import sys
import tempfile
import time as _time
import types

from .base import require, loop, tb, Mismatch

_log = logging.getLogger('pyvc.stub')
_log.addHandler(logging.NullHandler())
_log.propagate = False
_log.setLevel(logging.CRITICAL)


class ClientFault(Exception):
    pass


class ServerFault(Exception):
    pass


class LadonType(object):
    pass


class attachment(object):
    def __init__(self, f):
        self.f = f

    def read(self, *a):
        self.f.seek(0)
        return self.f.read(*a)


def ladonize(*a, **k):
    return lambda f: f


def install():
    for m in [m for m in sys.modules if m == 'hgaa' or m.startswith('hgaa.') or m.split('.')[0] == 'ladon']:
        del sys.modules[m]          # the verifier, run from the same process image, uses other stand-ins

    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        sys.modules[name] = m
        return m
    mod('ladon').__path__ = []
    mod('ladon.types').__path__ = []
    mod('ladon.exceptions').__path__ = []
    mod('ladon.ladonizer', ladonize=ladonize)
    mod('ladon.types.ladontype', LadonType=LadonType)
    mod('ladon.compat', PORTABLE_STRING=str, PORTABLE_BYTES=bytes)
    mod('ladon.types.attachment', attachment=attachment)
    mod('ladon.exceptions.service', ClientFault=ClientFault, ServerFault=ServerFault)
    mod('hgaa.log', SERVICE_LOG=_log, CLIENT_LOG=_log, SQL_LOG=_log, make_logger=lambda *a, **k: _log)


class Env:
    """Modules and a fresh database per case."""

    def __init__(self):
        install()
        import warnings
        warnings.simplefilter('ignore')
        from sqlalchemy import create_engine
        from sqlalchemy.pool import StaticPool
        from sqlalchemy.orm import sessionmaker
        import hgaa.database as db
        import hgaa.config as cf
        self.cf = cf
        self.create_engine, self.StaticPool, self.sessionmaker = create_engine, StaticPool, sessionmaker
        self.tmp = tempfile.mkdtemp(prefix='pyvc_services_')
        self.engine = None
        db.get_engine = lambda *a, **k: self.engine
        self.db = db

    def fresh(self, base):
        if self.engine is not None:
            self.engine.dispose()
        self.engine = self.create_engine('sqlite://', poolclass=self.StaticPool,
                                         connect_args={'check_same_thread': False})
        base.metadata.create_all(self.engine)
        return self.sessionmaker(bind=self.engine)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


class Clock:
    def __init__(self, t):
        self.t = t

    def __enter__(self):
        self.old = _time.time
        _time.time = lambda: self.t

    def __exit__(self, *a):
        _time.time = self.old


_env = []
_keys = []


def env():
    if not _env:
        _env.append(Env())
    return _env[0]


def keys():
    from Crypto.PublicKey import RSA
    rng = random.Random(4711)
    while len(_keys) < 3:
        _keys.append(RSA.generate(1024, randfunc=rng.randbytes))
    return _keys


class Att:
    def __init__(self, data):
        self.data = data

    def read(self, *a):
        return bytes(self.data)


# ------------------------------------------------------------------------------------------------------------ C14
NOW = 1600000000


def c14_case(st, certs, authorities, stored=(), name='', nocerts=None, twice=False):
    """certs: dicts (kind of certificate); authorities: uid -> (key index, trust, form)."""
    e = env()
    import hgaa.schema.pauth as S
    import hgaa.services.pauth as P
    import hgaa.attcert as A
    k = keys()
    mk = e.fresh(S.PAuthBase)
    s = mk()
    for uid, (ki, trust, form) in authorities.items():
        pk = k[ki].public_key()
        key = pk.export_key('PEM') if form == 'pem' else pk.export_key('PEM').decode() if form == 'text' else pk.export_key('DER')
        s.add(S.AttributeAuthority(uid=uid, name='n', url='u', key_cipher='RSA', key_size=1024, pub_key=key, trust_level=trust))
    raws = []
    ok = bool(certs) and nocerts is None
    info = []
    for c in certs:
        key = k[c['sign']] if c['sign'] is not None else None
        pkey = k[c['issuer_key']].public_key()
        cert = A.AttributeCertificate(
            A.ACIssuer(pkey.export_key('DER' if c.get('der') else 'PEM'), 'RSA', c['uid'], 'n', 'u'),
            A.ACHolder(b'hk', 'RSA', 'h'), A.ACInformation(1, c['serial'], c.get('issued', NOW - 10)),
            [A.ACAttribute('a', A.AttributeType.INT, '1', 'a')], A.ACRevocationRules(c['va'], c['vb']))
        if key is not None:
            cert.sign(key)
        if c.get('tamper') == 'serial':
            cert.info.serial ^= 2
        elif c.get('tamper') == 'value':
            cert.att_set[0].att_value = '2'
        elif c.get('tamper') == 'uid':
            cert.issuer.uid = c['tamper_uid']
        elif c.get('tamper') == 'validity':
            cert.rev_rules.valid_before += 100000
        fmt = A.ExportFormat(c['format']) if c['format'] in (0, 3, 4) else A.ExportFormat.BYTES
        data = cert.export_ac(fmt)
        if isinstance(data, str):
            data = data.encode()
        if c.get('garbage'):
            data = bytes(data) + b'\0' if c['garbage'] == 'trailing' and c['format'] == 0 else bytes(data)[:len(data) // 2]
        raw = LadonType()
        raw.data, raw.version, raw.format = Att(bytes(data)), c.get('version', 1), c['format']
        raws.append(raw)
        a = authorities.get(cert.issuer.uid)
        good = (c.get('version', 1) == 1 and c['format'] in (0, 3, 4) and c['sign'] is not None and c['sign'] == c['issuer_key']
                and not c.get('tamper') and not c.get('garbage') and a is not None and a[1] > 0 and a[0] == c['sign']
                and c['va'] < NOW < c['vb'])
        ser = base64.b64encode(c['serial'].to_bytes(20, 'little')).decode()
        if good and c.get('stored'):
            from Crypto.Hash import SHA256
            h = base64.b64encode(SHA256.new(bytes(data)).digest()).decode()
            other = c['stored'] == 'other'
            s.add(S.AttributeCertificate(serial=ser, certificate=b'other' if other else bytes(data), format=c['format'], version=1,
                                         valid_till=c['vb'], hash='x' + h[1:] if other and h[0] != 'x' else ('y' + h[1:] if other else h)))
            good = not other
        ok = ok and good
        info.append((ser, c, bytes(data)))
    dup = len({i[0] for i in info}) != len(info)
    s.commit()
    before = dump(mk, S)
    req = LadonType()
    req.attribute_certificates = raws
    if nocerts == 'none':
        req = None
    elif nocerts == 'nolist':
        req.attribute_certificates = None
    elif nocerts == 'empty':
        req.attribute_certificates = []
    st.case((name, repr(certs), repr(authorities), nocerts), (name, certs, 'accepted' if ok else 'refused'))
    desc = dict(certificates=certs, authorities=authorities, request=nocerts or 'certificates', case=name)
    pa = P.PolicyAuthority()
    res = err = None
    with Clock(NOW + .5):
        try:
            res = pa.start_session('svc', req, REMOTE_ADDR='1.2.3.4')
        except Exception as ex:
            err = ex
    after = dump(mk, S)
    if err is not None:
        require(after == before, 'a refused session request changed the store', before=before, after=after, error=repr(err), **desc)
        if not ok:
            require(isinstance(err, ClientFault), 'a refused request does not give a client fault', error=tb(err), **desc)
        elif not dup:
            raise Mismatch('a request with valid certificates is refused', error=tb(err), **desc)
        return
    require(ok, 'a session was started on an unacceptable request', **desc)
    require(not dup, 'a session was started on two certificates with one serial number', **desc)
    new = [r for r in after['sessions'] if r not in before['sessions']]
    require(len(new) == 1 and all(r in after['sessions'] for r in before['sessions']), 'not exactly one session was stored',
            stored=after['sessions'], **desc)
    n = dict(new[0])
    vb = min(c['vb'] for _, c, _ in info)
    till = min(vb, NOW + 86400)
    require(n['id'] == base64.b64encode(res.session_id.to_bytes(20, 'little')).decode(), 'stored session is not the reported one',
            stored=n, reported=vars(res), **desc)
    require(n['session_valid_till'] == res.valid_till and n['session_start'] == res.start,
            'stored session times are not the reported ones', stored=n, reported=vars(res), **desc)
    require(res.valid_till <= till, 'session ends later than its certificates or one day', reported=vars(res), limit=till, **desc)
    require(res.valid_till == till and res.start == NOW, 'session times are wrong', reported=vars(res), expected=(NOW, till), **desc)
    bound = sorted(r['ac_serial'] for r in map(dict, after['bindings']) if r['session_id'] == n['id'])
    require(bound == sorted(i[0] for i in info), 'session is not bound to its certificates', bound=bound, **desc)
    have = {dict(r)['serial']: dict(r) for r in after['certs']}
    for ser, c, data in info:
        r = have.get(ser)
        require(r is not None and r['certificate'] == data and r['valid_till'] == c['vb'] and r['format'] == c['format'],
                'certificate of the session is not stored as submitted', stored=repr(r), **desc)
    require(set(before['certs']) <= set(after['certs']), 'stored certificates were changed', **desc)


def dump(mk, S):
    s = mk()
    try:
        def rows(cls):
            return sorted((tuple((c.key, getattr(o, c.key)) for c in cls.__mapper__.column_attrs) for o in s.query(cls).all()), key=repr)
        return dict(certs=rows(S.AttributeCertificate), bindings=rows(S.AttributeCertificateAssignment), sessions=rows(S.Session))
    finally:
        s.close()


AUTHS = {'aa1': (0, 1, 'pem'), 'aa2': (1, 5, 'text'), 'bad': (2, 0, 'text'), 'neg': (2, -1, 'der')}


def C(**k):
    d = dict(uid='aa1', issuer_key=0, sign=0, serial=7, va=NOW - 100, vb=NOW + 1000, format=0)
    d.update(k)
    return d


def c14_fixed(st):
    ok = C()
    for f in (0, 3, 4):
        c14_case(st, [C(format=f)], AUTHS, name='valid')
        c14_case(st, [C(format=f, der=True)], AUTHS, name='valid, DER key')
    for f in (1, 2, 5, -1, 9):
        c14_case(st, [C(format=f)], AUTHS, name='unsupported format')
        c14_case(st, [ok, C(serial=8, format=f)], AUTHS, name='unsupported format second')
    for v in (0, 2, -1, None, 256):
        c14_case(st, [C(version=v)], AUTHS, name='unsupported version')
        c14_case(st, [ok, C(serial=8, version=v)], AUTHS, name='unsupported version second')
    for n in ('none', 'nolist', 'empty'):
        c14_case(st, [], AUTHS, name='no certificates', nocerts=n)
    bads = [dict(sign=None), dict(sign=1), dict(tamper='value'), dict(tamper='serial'), dict(tamper='validity'), dict(garbage='trailing'),
            dict(garbage='short'), dict(uid='unknown'), dict(uid='bad', issuer_key=2, sign=2), dict(uid='neg', issuer_key=2, sign=2),
            dict(uid='aa1', issuer_key=1, sign=1), dict(uid='aa2'), dict(va=NOW, vb=NOW + 10), dict(va=NOW + 1), dict(vb=NOW),
            dict(vb=NOW - 1), dict(va=NOW + 5, vb=NOW + 1), dict(uid='bad', issuer_key=0, sign=0),
            dict(tamper='uid', uid='aa2', issuer_key=0, sign=0, tamper_uid='aa1')]
    for b in bads:
        c14_case(st, [C(**b)], AUTHS, name='bad')
        for f in (3, 4):
            c14_case(st, [C(format=f, **b)], AUTHS, name='bad')
        c14_case(st, [ok, C(serial=8, **b)], AUTHS, name='bad second')
        c14_case(st, [C(serial=8, **b), ok], AUTHS, name='bad first')
    for va, vb in ((NOW - 1, NOW + 1), (0, NOW + 1), (NOW - 1, NOW + 86399), (NOW - 1, NOW + 86400), (NOW - 1, NOW + 86401),
                   (NOW - 1, NOW + 10 ** 6)):
        c14_case(st, [C(va=va, vb=vb)], AUTHS, name='session length')
        c14_case(st, [C(va=va, vb=vb), C(serial=9, uid='aa2', issuer_key=1, sign=1)], AUTHS, name='two certificates')
        c14_case(st, [C(serial=9, vb=NOW + 500), C(va=va, vb=vb)], AUTHS, name='two certificates')
        c14_case(st, [C(serial=9, vb=NOW + 500), C(va=va, vb=vb), C(serial=10, vb=NOW + 400)], AUTHS, name='three certificates')
    c14_case(st, [C(serial=i, vb=NOW + 50 + i) for i in range(5)], AUTHS, name='five certificates')
    for s_ in ('same', 'other'):
        c14_case(st, [C(stored=s_)], AUTHS, name='known serial')
        c14_case(st, [C(serial=9), C(stored=s_)], AUTHS, name='known serial second')
        c14_case(st, [C(stored=s_), C(serial=9)], AUTHS, name='known serial first')
    c14_case(st, [ok, ok], AUTHS, name='duplicate')
    c14_case(st, [ok, C(vb=NOW + 5)], AUTHS, name='same serial')
    for ser in (0, 2 ** 160 - 1, 2 ** 159, 255):
        c14_case(st, [C(serial=ser)], AUTHS, name='serial')
    for trust in (-5, 0, 1, 2, 100):
        c14_case(st, [ok], {'aa1': (0, trust, 'pem')}, name='trust')
    c14_case(st, [ok], {}, name='no authorities')
    c14_case(st, [ok], {'aa1': (1, 1, 'pem')}, name='other key registered')


def c14_random(rng, st):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    cs = []
    for i in range(n):
        u = rng.choice(['aa1', 'aa1', 'aa2', 'aa2', 'aa1', 'bad', 'unknown'] if rng.random() < .3 else ['aa1', 'aa2'])
        ki = {'aa1': 0, 'aa2': 1, 'bad': 2, 'unknown': 0}[u]
        c = C(uid=u, issuer_key=ki, sign=ki, serial=rng.getrandbits(160), format=rng.choice([0, 3, 4]),
              va=NOW - rng.choice([1, 2, 100, 10 ** 6]), vb=NOW + rng.choice([1, 2, 100, 86399, 86400, 86401, 10 ** 6]),
              issued=rng.randint(0, 2 ** 32 - 1))
        if rng.random() < .12:
            c.update(rng.choice([dict(sign=None), dict(sign=(ki + 1) % 3), dict(tamper='value'), dict(va=NOW), dict(vb=NOW),
                                 dict(format=rng.choice([1, 2, 7])), dict(version=0), dict(garbage='trailing'), dict(stored='other')]))
        elif rng.random() < .1:
            c['stored'] = 'same'
        cs.append(c)
    c14_case(st, cs, AUTHS, name='random')


# ------------------------------------------------------------------------------------------------------------ C15
PEPPER = 'p3pp3r'
_hashes = {}


def hashed(pw):
    import bcrypt
    if pw not in _hashes:
        _hashes[pw] = bcrypt.hashpw((pw + PEPPER).encode(), bcrypt.gensalt(4)).decode()
    return _hashes[pw]


USERS = {1: ('dan', 'admin'), 2: ('eve', 'secret'), 3: ('émile', 'pass'), 4: ('empty', ''), 5: ('dan2', 'admin')}
ATTS = {'/attribute/user/a': ('a', 'INT'), '/attribute/user/b': ('b', 'STRING'), '/attribute/user/c': ('c', 'BOOL'),
        '/attribute/user/d': ('d', 'SET'), '/attribute/user/e': ('e', 'FLOAT'), 'weird id': ('Weird Name', 'NULL')}
ASSIGN = {(1, '/attribute/user/a'): '1', (1, '/attribute/user/b'): 'x', (1, '/attribute/user/c'): None, (2, '/attribute/user/a'): '2',
          (2, '/attribute/user/d'): '{1,2}', (1, 'weird id'): '', (3, '/attribute/user/e'): '2.5', (5, '/attribute/user/b'): 'y'}


def c15_case(st, user, pw, ids=(), names=(), ctype=0, assign=None, name='', expire='3600', length_check=True, key=b'userkey',
             clock=NOW + .7, atts=None, remote='10.0.0.1', prior=None):
    e = env()
    import hgaa.schema.aauth as S
    import hgaa.services.aauth as P
    import hgaa.attcert as A
    assign = ASSIGN if assign is None else assign
    atts = ATTS if atts is None else atts
    k = keys()
    kf = os.path.join(e.tmp, 'key.bin')
    if not os.path.exists(kf):
        with open(kf, 'wb') as f:
            f.write(k[0].export_key('DER'))
    acdir = os.path.join(e.tmp, 'acs') + '/'
    shutil.rmtree(acdir, ignore_errors=True)
    os.makedirs(acdir)
    cf = e.cf.SERVICE_CONFIG
    for kk, v in dict(KEY_FILE=kf, KEY_PASS='', PASS_PEPPER=PEPPER, AC_EXPIRE_LENGTH=expire, A_URI='hgabac://aa', AAUTH_ID='theaa').items():
        cf['AAUTH'][kk] = v
    mk = e.fresh(S.AAuthBase)
    s = mk()
    for uid, (un, p) in USERS.items():
        s.add(S.User(id=uid, username=un, password=hashed(p)))
    for aid, (an, t) in atts.items():
        s.add(S.Attribute(id=aid, name=an, type=A.AttributeType[t]))
    for (uid, aid), v in assign.items():
        s.add(S.AttributeAssignment(user_id=uid, att_id=aid, value=v))
    s.commit()
    P.AttributeAuthority.AC_DIR = acdir
    aa = P.AttributeAuthority()

    def request(user, pw, ids, names, ctype):
        cr, pk, al = LadonType(), LadonType(), LadonType()
        cr.type, cr.username, cr.password = ctype, user, pw
        pk.public_key = key
        pk.key_algorithm = LadonType()
        pk.key_algorithm.cipher, pk.key_algorithm.key_size = 'RSA', 2048
        al.attribute_ids, al.attribute_names = list(ids), list(names)
        with Clock(clock):
            return aa.attribute_request(cr, pk, al, REMOTE_ADDR=remote)
    if prior is not None:
        try:
            request(*prior).data.f.close()
        except Exception:
            pass
        shutil.rmtree(acdir, ignore_errors=True)
        os.makedirs(acdir)
    desc = dict(user=user, password=pw, ids=list(ids), names=list(names), credential_type=ctype, case=name, prior=prior)
    uid = next((i for i, (un, p) in USERS.items() if un == (user or '').lower() and p == pw), None) if ctype == 0 else None
    mine = {a: v for (u, a), v in assign.items() if u == uid}
    rid = [i for i in ids if i not in (None, '', '*')]
    rn = [i for i in names if i not in (None, '', '*')]
    want = None
    if uid is not None:
        if not rid and not rn:
            want = dict(mine)
        else:
            byname = {}
            for a in mine:
                byname.setdefault(atts[a][0], []).append(a)
            if all(i in mine for i in rid) and all(n in byname for n in rn):
                want = {i: mine[i] for i in rid}
                for n in rn:
                    want[byname[n][0]] = mine[byname[n][0]]
    st.case((name, user, pw, tuple(ids), tuple(names), ctype), (user, pw, list(ids), list(names)))
    err = res = None
    try:
        res = request(user, pw, ids, names, ctype)
    except Exception as ex:
        err = ex
    files = os.listdir(acdir)
    if err is not None:
        require(not files, 'a refused request left a certificate', error=repr(err), files=files, **desc)
        require(want is None, 'an acceptable attribute request is refused', error=tb(err), **desc)
        return
    data = res.data.read()
    res.data.f.close()
    require(want is not None, 'attributes were issued on an unacceptable request', **desc)
    try:
        c = A.AttributeCertificate.import_ac(bytearray(data), A.ExportFormat(res.format), True)
    except Exception as ex:
        raise Mismatch('issued certificate does not verify', error=tb(ex), **desc)
    got = [a for a in c.att_set if not a.att_id.startswith('/attribute/connection/')]
    view = sorted((a.att_id, a.att_name or None, a.att_type.name, a.att_value or None) for a in got)
    exp = sorted((i, atts[i][0] or None, atts[i][1], v or None) for i, v in want.items())
    require(repr(view) == repr(exp), 'issued attributes are not the assigned ones', issued=view, expected=exp, **desc)
    from Crypto.PublicKey import RSA
    require(RSA.import_key(bytes(c.issuer.pub_key)) == k[0].public_key(), 'issuer key is not the key of the authority', **desc)
    require(c.issuer.uid == 'hgabac://aa' and c.issuer.name == 'theaa', 'issuer is not the authority', got=vars(c.issuer), **desc)
    require(c.holder.uid == 'hgabac://aa/user/' + user.lower() and bytes(c.holder.pub_key) == key and (c.holder.name or '').lower() == user.lower(),
            'holder is not the authenticated account with the presented key', got=vars(c.holder), **desc)
    require(c.info.issued == int(clock) and c.rev_rules.valid_after == int(clock) and
            c.rev_rules.valid_before == int(clock) + int(expire), 'validity of the issued certificate is wrong',
            issued=c.info.issued, got=(c.rev_rules.valid_after, c.rev_rules.valid_before), **desc)


def c15_fixed(st):
    for u in ('dan', 'Dan', 'DAN', 'eve', 'Émile', 'ÉMILE', 'dan2', 'Dan2'):
        for p in ('admin', 'secret', 'pass', '', 'Admin', 'admin '):
            c15_case(st, u, p, name='login')
    for u in ('nobody', '', 'dan ', 'd', '%', 'dan\0', "dan' OR '1'='1", 'empty'):
        for p in ('admin', ''):
            c15_case(st, u, p, name='login')
    for ct in (1, -1, 2, None, '0', 17):
        c15_case(st, 'dan', 'admin', ctype=ct, name='credential type')
    idl = list(ATTS)
    for i in idl:
        for u, p in (('dan', 'admin'), ('eve', 'secret'), ('dan2', 'admin')):
            c15_case(st, u, p, ids=[i], name='by id')
            c15_case(st, u, p, names=[ATTS[i][0]], name='by name')
            c15_case(st, u, p, ids=[i], names=['a'], name='by both')
            c15_case(st, u, p, ids=[i, '/attribute/user/a'], name='two ids')
            c15_case(st, u, p, ids=['/attribute/user/a', i], name='two ids')
    for ids in (['*'], [''], [None], ['*', None, ''], ['*', '*'], ['unknown'], ['/attribute/user/A'], ['a'], ['*', 'unknown'],
                ['', '/attribute/user/a', '*', '/attribute/user/a']):
        c15_case(st, 'dan', 'admin', ids=ids, name='special ids')
        c15_case(st, 'dan', 'admin', names=ids, name='special names')
        c15_case(st, 'dan', 'admin', ids=ids, names=['b'], name='special ids with a name')
        c15_case(st, 'dan', 'admin', ids=['/attribute/user/b'], names=ids, name='special names with an id')
    for ex in ('1', '3600', '86400', '0', '999999'):
        c15_case(st, 'dan', 'admin', expire=ex, name='length')
    for t in (1, 1000.99, 2 ** 31 + .2, 86399.5):
        c15_case(st, 'dan', 'admin', clock=t, name='clock')
    c15_case(st, 'dan', 'admin', assign={}, name='no assignments')
    for r in ('1.2.3.4', 'a:b:1:2', 'localhost'):
        c15_case(st, 'dan', 'admin', remote=r, name='remote address')
    # a request must not be influenced by an earlier one
    pr = [('dan', 'admin', [], [], 0), ('dan', 'admin', ['/attribute/user/b'], [], 0), ('eve', 'secret', [], [], 0), ('dan', 'wrong', [], [], 0)]
    for p in pr:
        c15_case(st, 'eve', 'secret', prior=p, name='second request')
        c15_case(st, 'eve', 'wrong', prior=p, name='second request')
        c15_case(st, 'dan', 'admin', ids=['/attribute/user/a'], prior=p, name='second request')
        c15_case(st, 'eve', 'secret', ids=['/attribute/user/b'], prior=p, name='second request')


def c15_random(rng, st):
    uid = rng.choice(list(USERS))
    u, p = USERS[uid]
    if rng.random() < .3:
        p = rng.choice(['admin', 'x', 'secret'])
    if rng.random() < .3:
        u = u.upper()
    atts = {}
    for i in range(rng.randint(0, 6)):
        atts['/attribute/user/%d' % i] = ('n%d' % i, rng.choice(['INT', 'STRING', 'BOOL', 'SET', 'FLOAT', 'NULL']))
    assign = {}
    for w in USERS:
        for a in atts:
            if rng.random() < .6:
                assign[(w, a)] = rng.choice([None, '', '1', 'True', 'x y', 'é', 'v%d' % w])
    pool = list(atts) + ['', '*', None]
    ids = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    names = [rng.choice([v[0] for v in atts.values()] + ['', '*']) for _ in range(rng.choice([0, 0, 1, 2]))]
    c15_case(st, u, p, ids, names, assign=assign, atts=atts, name='random')


RULES = {'C14': 'start_session of the real policy authority (in-memory database, real signatures) against the stated conditions',
         'C15': 'attribute_request of the real attribute authority (in-memory database, real bcrypt and signatures) against the stated conditions'}


def search(prop, tier, seed, seconds, hints, worker):
    fixed = {'C14': [c14_fixed], 'C15': [c15_fixed]}[prop]
    randoms = {'C14': [c14_random], 'C15': [c15_random]}[prop]
    env()
    try:
        return loop(prop, fixed, randoms, seed, seconds, worker, RULES[prop])
    finally:
        env().close()
        _env.clear()
