"""Refuter for configuration lookup (C17): the real hgaa.config.get_conf against the definition."""
import configparser
import random

from .base import require, loop, tb, Mismatch
from hgaa import config as K

SECTS = ['DEFAULT', 'AAUTH', 'PAUTH', 'TOOLS', 'X', 'SOME SECTION', 'NONE']
NAMES = ['LOG_LEVEL', 'DB_USER', 'DB_NAME', 'SERVICE_HOST', 'CLEAN_LOG_ON_START', 'NEW', 'OTHER', 'KEY', 'DB_PASS', 'LOG_NAME']
VALUES = ['', 'v', 'True', 'None', '0', ' spaced ', 'DEFAULT', 'False', 'x=y']


def case(rng, s):
    k = rng.randrange(4)
    return s if k == 0 else s.lower() if k == 1 else s.title() if k == 2 else ''.join(
        rng.choice((c.lower(), c.upper())) for c in s)


def build(rng, used):
    """ConfigParser and its model {section: {NAME: value}}."""
    cp = configparser.ConfigParser()
    model = {'DEFAULT': {}}
    for n in NAMES:
        if rng.random() < .35:
            v = rng.choice(VALUES)
            cp['DEFAULT'][case(rng, n)] = v
            model['DEFAULT'][n] = v
    for s in SECTS[1:]:
        if rng.random() < .5:
            cp.add_section(s)
            model[s] = {}
            for n in NAMES:
                if rng.random() < .35:
                    v = rng.choice(VALUES)
                    cp[s][case(rng, n)] = v
                    model[s][n] = v
    return cp, model


def defaults(rng):
    return {n: rng.choice(VALUES + [None]) for n in NAMES if rng.random() < .4}


def expected(model, dflt, name, sect):
    name, sect = name.upper(), sect.upper()
    if sect not in model:
        sect = 'DEFAULT'
    if name in model[sect]:
        return model[sect][name]
    if name in model['DEFAULT']:
        return model['DEFAULT'][name]
    return dflt.get(name)


def world(rng, st, n=60):
    saved = (K.SERVICE_CONFIG, K.CLIENT_CONFIG, dict(K.DEFAULT_SERVICE_CONFIGS), dict(K.DEFAULT_CLIENT_CONFIGS))
    try:
        (sc, sm), (cc, cm) = build(rng, None), build(rng, None)
        sd, cd = defaults(rng), defaults(rng)
        K.SERVICE_CONFIG, K.CLIENT_CONFIG = sc, cc
        for d, new in ((K.DEFAULT_SERVICE_CONFIGS, sd), (K.DEFAULT_CLIENT_CONFIGS, cd)):
            d.clear()
            d.update(new)
        for _ in range(n):
            ask(rng, st, sm, cm, sd, cd)
    finally:
        K.SERVICE_CONFIG, K.CLIENT_CONFIG = saved[:2]
        for d, old in ((K.DEFAULT_SERVICE_CONFIGS, saved[2]), (K.DEFAULT_CLIENT_CONFIGS, saved[3])):
            d.clear()
            d.update(old)


def ask(rng, st, sm, cm, sd, cd):
    name = case(rng, rng.choice(NAMES + ['ABSENT']))
    sect = case(rng, rng.choice(SECTS + ['UNKNOWN']))
    service = rng.random() < .5
    model, dflt = (sm, sd) if service else (cm, cd)
    how = rng.randrange(3)
    try:
        if how == 0 and service:
            sect2 = 'DEFAULT'
            got = K.get_conf(name)
            want = expected(model, dflt, name, 'DEFAULT')
        elif how == 1:
            got = K.get_conf(name, sect=sect, service=service)
            want = expected(model, dflt, name, sect)
        else:
            got = K.get_conf(name, service, sect)
            want = expected(model, dflt, name, sect)
    except Exception as e:
        raise Mismatch('configuration lookup fails', name=name, section=sect, service=service, model=model, error=tb(e))
    st.case((name, sect, service, want, repr(model)[:80]), (name, sect, service, want))
    require(got == want and (got is None) == (want is None), 'wrong setting', name=name, section=sect, service=service, file=model, builtin=dflt,
            got=repr(got), expected=repr(want))


def shipped(st):
    """The files and tables of the repository itself."""
    import os
    for cp, fn in ((K.SERVICE_CONFIG, 'services.ini'), (K.CLIENT_CONFIG, 'clients.ini')):
        ref = configparser.ConfigParser(interpolation=None)
        ref.read(os.path.join(os.path.dirname(K.__file__), 'confs', fn))
        require({s: {o: cp.get(s, o, raw=True) for o in cp.options(s)} for s in cp.sections()} ==
                {s: dict(ref[s]) for s in ref.sections()} and dict(cp.defaults()) == dict(ref.defaults()),
                'the settings are not those of the file', file=fn)
    for service, cp, dflt in ((True, K.SERVICE_CONFIG, K.DEFAULT_SERVICE_CONFIGS), (False, K.CLIENT_CONFIG, K.DEFAULT_CLIENT_CONFIGS)):
        model = {'DEFAULT': {k.upper(): v for k, v in cp.defaults().items()}}
        for s in cp.sections():
            model[s] = {k.upper(): cp.get(s, k) for k in cp._sections[s]}
        names = {n for m in model.values() for n in m} | set(dflt) | {'ABSENT'}
        for s in list(model) + ['UNKNOWN']:
            for n in names:
                for nn, ss in ((n, s), (n.lower(), s.lower())):
                    got = K.get_conf(nn, service, ss)
                    want = expected({k: {a: (cp.get(k, a) if k != 'DEFAULT' else cp['DEFAULT'][a]) for a in m}
                                     for k, m in model.items()}, dflt, nn, ss)
                    st.case(('shipped', service, nn, ss), None)
                    require(got == want, 'wrong setting from the shipped files', name=nn, section=ss, service=service, got=repr(got),
                            expected=repr(want))


def c17_fixed(st):
    shipped(st)
    rng = random.Random(9)
    for _ in range(40):
        world(rng, st)


def c17_random(rng, st):
    world(rng, st)


def search(prop, tier, seed, seconds, hints, worker):
    return loop(prop, [c17_fixed], [c17_random], seed, seconds, worker,
                'get_conf against the definition over random configuration files and default tables')
