"""C08: the excerpt of a policy error."""
from .common import *
from engine import texts
from hgpl import errors as E

CLASSES = ['HGPLError', 'LexerError', 'ParserError']


def near_unit(h, cls):
    c = h.ctx
    t = SText('text')
    c.assume(t.n >= 0)
    whole = SStr((SL(t, z3.IntVal(0), t.n),))
    pos = h.int('pos', 0)
    c.assume(pos.t <= t.n)
    e = h.interp.call(getattr(E, cls), ['message', whole, pos])
    if h.choose(['default', 'given'], 'length'):
        pass
    mode = h.choose(['default', 'given', 'printed'], 'call')
    k = z3.IntVal(10)
    if mode == 'default':
        o = h.method(e, 'near')
    elif mode == 'given':
        m = h.int('near_length', 0)
        k = m.t
        o = h.method(e, 'near', m)
    else:
        o = h.call(str, e)
        h.check('printing an error never fails', not o.raised, repr(o))
        return
    h.check('the excerpt never fails', not o.raised, repr(o))
    v = o.value
    lo = z3.If(pos.t - k < 0, z3.IntVal(0), pos.t - k)
    hi = z3.If(pos.t + k + 1 > t.n, t.n, pos.t + k + 1)
    h.check('the error keeps its position', h.eq(h.get(e, 'pos'), pos))
    if v is None or isinstance(v, str) and v == '':
        h.check('the excerpt is the text around the position', lo >= hi)
        return
    s = texts.single(v) if isinstance(v, SStr) else None
    if s is None:
        if isinstance(v, SStr):
            raise Unsupported('excerpt')
        h.check('the excerpt is text', False, repr(v))
    h.check('the excerpt is the text around the position', z3.Or(z3.And(s.i == lo, s.j == hi, s.mode is None), z3.And(s.i == s.j, lo >= hi)))


for _c in CLASSES:
    def _mk(c=_c):
        return lambda h: h.run(lambda: near_unit(h, c))
    add_unit('C08', 'excerpt of %s' % _c, _mk())
