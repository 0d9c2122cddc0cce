"""C17: contract of hgaa.config.get_conf.

The configuration files are arbitrary: a ConfigParser is an unknown map (assumed contract of configparser below), the
tables of built-in defaults are unknown maps from upper-case names to strings or None."""
import configparser
import os
import z3
from .common import *
from engine import models as _m
import hgaa.config as K

NAME = S


def missing(cls, *a):
    return mark(cls(*a))


class Table(Sym):
    """Unknown dict from strings to strings or None."""
    pytype = dict

    def __init__(self, tag):
        self.tag = tag
        self.has = z3.Function(tag + '.has', S, B)
        self.none = z3.Function(tag + '.none', S, B)
        self.val = z3.Function(tag + '.val', S, S)

    def show(self):
        return self.tag

    def value(self, interp, key):
        k = str_z3(key)
        if interp.ctx.branch(self.none(k)):
            return None
        return mk_str([ZS(self.val(k))])

    def contains(self, interp, key):
        return mk_bool(self.has(str_z3(key)))

    def getitem(self, interp, key):
        if not interp.ctx.branch(self.has(str_z3(key))):
            interp.raise_py(KeyError('key'))
        return self.value(interp, key)

    def method(self, interp, name, args, kwargs):
        if name == 'get':
            if not interp.ctx.branch(self.has(str_z3(args[0]))):
                return args[1] if len(args) > 1 else kwargs.get('default')
            return self.value(interp, args[0])
        if name == '__contains__':
            return self.contains(interp, args[0])
        if name == '__getitem__':
            return self.getitem(interp, args[0])
        return NOTHANDLED


class Parser(Sym):
    """Unknown ConfigParser.  Assumed contract of configparser: option names are matched in lower case, section names
    exactly, an option absent from a section is looked up in the default section, values are strings (no
    interpolation syntax in the files)."""
    pytype = configparser.ConfigParser

    def __init__(self, tag):
        self.tag = tag
        self.sect = z3.Function(tag + '.section', S, B)
        self.has = z3.Function(tag + '.has', S, S, B)
        self.val = z3.Function(tag + '.val', S, S, S)

    def show(self):
        return self.tag

    DEF = zlit('DEFAULT')

    def is_default(self, s):
        return str_z3(s) == self.DEF

    def exists(self, s):
        """has_section: the default section is not acknowledged."""
        return z3.And(self.sect(str_z3(s)), z3.Not(self.is_default(s)))

    def lookup(self, interp, sect, opt, default):
        """sect is known to exist or to be the default section; default() when absent."""
        o = str_z3(_m.lower(opt))
        s = str_z3(sect)
        if interp.ctx.branch(self.has(s, o)):
            return mk_str([ZS(self.val(s, o))])
        if not interp.truth(mk_bool(self.is_default(sect))) and interp.ctx.branch(self.has(self.DEF, o)):
            return mk_str([ZS(self.val(self.DEF, o))])
        return default()

    def known(self, sect):
        return z3.Or(self.exists(sect), self.is_default(sect))

    def contains(self, interp, s):
        return mk_bool(self.known(s))

    def getitem(self, interp, s):
        if not interp.ctx.branch(self.known(s)):
            interp.raise_py(KeyError('section'))
        return Section(self, s)

    def method(self, interp, name, args, kwargs):
        if name == 'has_section':
            return mk_bool(self.exists(args[0]))
        if name == '__contains__':
            return self.contains(interp, args[0])
        if name == '__getitem__':
            return self.getitem(interp, args[0])
        if name == 'has_option':
            if not interp.ctx.branch(self.known(args[0])):
                return False
            return self.lookup(interp, args[0], args[1], lambda: None) is not None
        if name == 'get':
            if len(args) != 2 or set(kwargs) - {'fallback'}:
                raise Unsupported('ConfigParser.get arguments')
            if not interp.ctx.branch(self.known(args[0])):
                if 'fallback' in kwargs:
                    return kwargs['fallback']
                interp.raise_py(configparser.NoSectionError('section'))

            def absent():
                if 'fallback' in kwargs:
                    return kwargs['fallback']
                interp.raise_py(configparser.NoOptionError('option', 'section'))
            return self.lookup(interp, args[0], args[1], absent)
        if name == 'defaults':
            return Section(self, 'DEFAULT')
        return NOTHANDLED


class Section(Sym):
    pytype = configparser.SectionProxy

    def __init__(self, parser, sect):
        self.parser, self.sect = parser, sect

    def contains(self, interp, o):
        return self.parser.lookup(interp, self.sect, o, lambda: None) is not None

    def getitem(self, interp, o):
        return self.parser.lookup(interp, self.sect, o, lambda: interp.raise_py(KeyError('option')))

    def attr(self, interp, name):
        if name == 'name':
            return self.sect
        return NOTHANDLED

    def truth(self, interp):
        raise Unsupported('truth of a section')

    def method(self, interp, name, args, kwargs):
        if name == 'get':
            fb = args[1] if len(args) > 1 else kwargs.get('fallback')
            return self.parser.lookup(interp, self.sect, args[0], lambda: fb)
        if name == '__contains__':
            return self.contains(interp, args[0])
        if name == '__getitem__':
            return self.getitem(interp, args[0])
        return NOTHANDLED


class world:
    def __enter__(self):
        _m.ASCII_CASE[0] = True
        self.saved = {n: getattr(K, n) for n in ('SERVICE_CONFIG', 'CLIENT_CONFIG', 'DEFAULT_SERVICE_CONFIGS',
                                                 'DEFAULT_CLIENT_CONFIGS')}
        self.file = {True: Parser('services'), False: Parser('clients')}
        self.table = {True: Table('service defaults'), False: Table('client defaults')}
        K.SERVICE_CONFIG, K.CLIENT_CONFIG = self.file[True], self.file[False]
        K.DEFAULT_SERVICE_CONFIGS, K.DEFAULT_CLIENT_CONFIGS = self.table[True], self.table[False]
        return self

    def __exit__(self, *a):
        _m.ASCII_CASE[0] = False
        for n, v in self.saved.items():
            setattr(K, n, v)


def result_is(v, present, none, val):
    """v is None or the string val, as dictated."""
    if v is None:
        return z3.Or(z3.Not(present), none)
    if not isinstance(v, (str, SStr)):
        return z3.BoolVal(False)
    return z3.And(present, z3.Not(none), str_z3(v) == val)


def expected(w, service, name, sect):
    """(present, none, value) of the setting, written without control flow."""
    p, d = w.file[service], w.table[service]
    lo = str_z3(_m.lower(name))
    up = str_z3(_m.upper(name))
    s = str_z3(_m.upper(sect))
    own = z3.And(p.sect(s), s != p.DEF, p.has(s, lo))
    dflt = p.has(p.DEF, lo)
    present = z3.Or(own, dflt, d.has(up))
    none = z3.And(z3.Not(own), z3.Not(dflt), d.none(up))
    val = z3.If(own, p.val(s, lo), z3.If(dflt, p.val(p.DEF, lo), d.val(up)))
    return present, none, val


def _lookup(h, service, how):
    with world() as w:
        def body():
            name = h.str('name')
            sect = h.str('section')
            if how == 'positional':
                o = h.call(K.get_conf, name, service, sect)
            elif how == 'keywords':
                o = h.call(K.get_conf, sect=sect, val_name=name, service=service)
            elif how == 'default section named':
                sect = h.choose(['DEFAULT', 'default', 'Default'])
                o = h.call(K.get_conf, name, service, sect)
            else:
                sect = 'DEFAULT'
                o = h.call(K.get_conf, name) if service and h.choose([0, 1]) else h.call(K.get_conf, name, service)
            h.check('lookup does not fail', o.kind == 'return', detail=repr(o))
            h.check('the value is that of the section, else the default section, else the built-in default',
                    result_is(o.value, *expected(w, service, name, sect)), detail=repr(o.value))
            h.cover('found' if o.value is not None else 'absent')
        h.run(body)


for _s in (True, False):
    for _h in ('positional', 'keywords', 'default section named', 'no section'):
        add_unit('C17', '%s settings, %s' % ('service' if _s else 'client', _h),
                 lambda h, s=_s, k=_h: _lookup(h, s, k))


@unit('C17', 'a lookup is not influenced by an earlier one')
def _history(h):
    with world() as w:
        def body():
            o1 = h.call(K.get_conf, h.str('name'), h.choose([True, False]), h.str('section'))
            service = h.choose([True, False])
            name, sect = h.str('name'), h.str('section')
            o = h.call(K.get_conf, name, service, sect)
            h.check('lookups do not fail', o1.kind == o.kind == 'return', detail=repr((o1, o)))
            h.check('the second value is right', result_is(o.value, *expected(w, service, name, sect)))
        h.run(body)


@unit('C17', 'each parser holds its own file')
def _files(h):
    """Finite and complete: the parsers of the imported module against their files."""
    def body():
        for cp, fn in ((K.SERVICE_CONFIG, 'services.ini'), (K.CLIENT_CONFIG, 'clients.ini')):
            ref = configparser.ConfigParser(interpolation=None)
            ref.read(os.path.join(REPO, 'hgaa', 'confs', fn))
            raw = {s: {o: cp.get(s, o, raw=True) for o in cp.options(s)} for s in cp.sections()}
            h.check('the sections of %s' % fn, set(cp.sections()) == set(ref.sections()))
            h.check('the settings of %s' % fn, raw == {s: dict(ref[s]) for s in ref.sections()})
            h.check('the default section of %s' % fn, dict(cp.defaults()) == dict(ref.defaults()))
            h.check('section names are upper case', all(s == s.upper() for s in cp.sections()))
        for d in (K.DEFAULT_SERVICE_CONFIGS, K.DEFAULT_CLIENT_CONFIGS):
            h.check('built-in defaults have upper-case names', all(k == k.upper() for k in d))
            h.check('built-in defaults are strings or None', all(v is None or isinstance(v, str) for v in d.values()))
    h.run(body)
