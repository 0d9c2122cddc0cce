"""Shared by C14 and C15: the web framework and the log are stubs, the database is a model.

Database: a table is a sequence of rows of unknown length whose columns are functions of the row number; primary keys
are unique.  A query sees the rows stored before the request; rows added become stored at commit()."""
import sys
import types
import base64
import z3
from .common import *
from . import certs as K
from engine import ropes as R_
from engine import loops


class ClientFault(Exception):
    pass


class ServerFault(Exception):
    pass


class LadonType(object):
    pass


class attachment(object):
    pass


def ladonize(*a, **k):
    return lambda f: f


class Log(object):
    def debug(self, *a, **k):
        return None

    info = warning = warn = error = critical = exception = log = debug

    def isEnabledFor(self, level):
        return False


def install():
    def mod(name, **k):
        m = types.ModuleType(name)
        m.__dict__.update(k)
        sys.modules[name] = m
        return m
    mod('ladon').__path__ = []
    mod('ladon.types').__path__ = []
    mod('ladon.exceptions').__path__ = []
    mod('ladon.ladonizer', ladonize=ladonize)
    mod('ladon.types.ladontype', LadonType=LadonType)
    mod('ladon.compat', PORTABLE_STRING=str, PORTABLE_BYTES=bytes)
    mod('ladon.types.attachment', attachment=attachment)
    mod('ladon.exceptions.service', ClientFault=ClientFault, ServerFault=ServerFault)
    log = Log()
    mod('hgaa.log', SERVICE_LOG=log, CLIENT_LOG=log, SQL_LOG=log, make_logger=lambda *a, **k: log)
    import warnings
    warnings.simplefilter('ignore')


install()
import sqlalchemy  # noqa
from sqlalchemy.orm.attributes import InstrumentedAttribute  # noqa

Log.debug.__pyvc_native__ = True


# ------------------------------------------------------------------------------------------------ rows and tables
def columns(cls):
    """attribute -> (kind, nullable)"""
    out = {}
    for a, c in cls.__mapper__.columns.items():
        t = c.type
        if isinstance(t, sqlalchemy.types.Enum):
            k = ('enum', t.enum_class)
        elif isinstance(t, sqlalchemy.types.LargeBinary):
            k = ('bytes', None)
        elif isinstance(t, (sqlalchemy.types.String,)):
            k = ('str', None)
        elif isinstance(t, sqlalchemy.types.Integer):
            k = ('int', None)
        else:
            raise Unsupported('column type %r' % (t,))
        out[a] = k + (bool(c.nullable),)
    return out


class Row(Sym):
    """A row: new (values given) or stored (values are functions of its number).  Attributes that are no columns may be
    set on the object of a stored row."""
    elem_part = True

    def __init__(self, cls, values=None, table=None, i=None):
        self.cls, self.values, self.table, self.i = cls, values, table, i
        self.pytype = cls
        self.extra = {}

    def attr(self, interp, name):
        if self.table is not None:
            if name in self.extra:
                v = self.extra[name]
                return v.make() if isinstance(v, Lazy) else v
            return self.table.value(interp, self, name)
        if name in self.values:
            return self.values[name]
        if name in columns(self.cls):
            return None
        raise Unsupported('attribute %s of a new %s' % (name, self.cls.__name__))

    def set_attr(self, interp, name, v):
        if self.table is not None:
            if name in self.table.special or name in self.cls.__mapper__.attrs:
                raise Unsupported('stored row changed')
            d = dict(self.extra)
            d[name] = v
            interp.ctx.set_cell(self, 'extra', d)
            return
        d = dict(self.values)
        d[name] = v
        interp.ctx.set_cell(self, 'values', d)

    def sym_eq(self, interp, o):
        if isinstance(o, Row):
            if o is self:
                return True
            if self.table is not None and o.table is self.table:
                return mk_bool(self.i == o.i)
        return False

    def show(self):
        return self.cls.__name__


class Table:
    """Stored rows of a class; special: attribute -> fn(interp, row) replaces a column (invariants of the store)."""

    def __init__(self, h, cls, special=None, key=None, unique=()):
        self.h, self.cls = h, cls
        self.name = cls.__tablename__
        self.n = z3.Int(h.ctx.name('rows.' + self.name))
        h.ctx.assume(self.n >= 0)
        self.special = special or {}
        self.cols = columns(cls)
        self.uid = h.ctx.name(self.name)
        self.rows = SSeq(self.n, lambda i: Row(cls, None, self, i), list, self.name)
        self.memo = {}

    def fn(self, col, sort):
        return z3.Function('%s.%s' % (self.uid, col), V.I, sort)

    def unique(self, col, sort):
        """Values of the column identify the row."""
        f, i = self.fn(col, sort), z3.Int('i')
        inv = z3.Function('%s.%s.row' % (self.uid, col), sort, V.I)
        self.h.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), inv(f(i)) == i), patterns=[f(i)]))

    def term(self, col, i):
        return self.fn(col, {'str': V.S, 'int': V.I, 'bytes': R_.BYTES, 'enum': V.I}[self.cols[col][0]])(i)

    def null(self, col, i):
        return self.fn(col + '.null', V.B)(i)

    def value(self, interp, row, col):
        if col in self.special:
            return self.special[col](interp, row)
        if col not in self.cols:
            raise Unsupported('attribute %s of %s' % (col, self.cls.__name__))
        kind, arg, nullable = self.cols[col]
        if nullable and interp.ctx.branch(self.null(col, row.i)):
            return None
        t = self.term(col, row.i)
        if kind == 'str':
            return mk_str([ZS(t)])
        if kind == 'int':
            return SInt(t)
        if kind == 'bytes':
            if not interp.ctx.entails(R_.blen(t) >= 0):
                interp.ctx.assume(R_.blen(t) >= 0)
            return R_.SBytes((R_.Raw(t),))
        interp.ctx.assume(z3.Or([t == m.value for m in arg]))
        return interp.mk_enum(arg, t)


class Criterion(Sym):
    def __init__(self, cls, col, value):
        self.cls, self.col, self.value = cls, col, value

    def truth(self, interp):
        raise Unsupported('truth value of a query criterion')

    def show(self):
        return self.col


class Query(Sym):
    def __init__(self, db, cls, crits=(), joins=(), cols=()):
        self.db, self.cls, self.crits, self.joins, self.cols = db, cls, tuple(crits), tuple(joins), tuple(cols)

    def method(self, interp, name, args, kwargs):
        db = self.db
        if name in ('filter', 'where'):
            for a in args:
                if not isinstance(a, Criterion) or kwargs:
                    raise Unsupported('query criterion %r' % (a,))
            return Query(db, self.cls, self.crits + tuple(args), self.joins, self.cols)
        if name == 'filter_by':
            t = self.joins[-1] if self.joins else self.cls
            cs = []
            for k, v in kwargs.items():
                if not isinstance(getattr(t, k, None), InstrumentedAttribute):
                    interp.raise_py(sqlalchemy.exc.InvalidRequestError('no property %s' % k))
                cs.append(Criterion(t, k, v))
            if args:
                interp.raise_py(TypeError('filter_by() takes 1 positional argument'))
            return Query(db, self.cls, self.crits + tuple(cs), self.joins, self.cols)
        if name == 'join':
            a, = args
            if isinstance(a, InstrumentedAttribute):
                a = a.property.mapper.class_
            return Query(db, self.cls, self.crits, self.joins + (a,), self.cols)
        if name == 'get':
            a, = args
            pk = [c for c in self.cls.__mapper__.primary_key]
            if len(pk) != 1:
                raise Unsupported('get() with a composite key')
            col = self.cls.__mapper__.get_property_by_column(pk[0]).key
            return Query(db, self.cls, self.crits + (Criterion(self.cls, col, a),), self.joins, self.cols).first(interp)
        if name in ('first', 'one_or_none'):
            return self.first(interp, name != 'first')
        if name == 'all':
            return self.all(interp)
        if name == 'order_by':
            raise Unsupported('order_by')
        raise Unsupported('query.%s' % name)

    def iterate(self, interp):
        return None

    def as_seq(self, interp):
        return interp.as_seq(self.all(interp))

    def matches(self, interp, row):
        return z3.And([z3.BoolVal(True)] + [bool_term(interp.eq(interp.load_attr(row, c.col), c.value))
                                             for c in self.crits])

    def check(self):
        if self.db.pending:
            raise Unsupported('query after rows were added')
        if any(c.cls is not self.cls for c in self.crits) or self.joins or self.cols:
            raise Unsupported('query with a join')

    def first(self, interp, one=False):
        ctx = interp.ctx
        h = self.db.joined.get((self.cls,) + self.joins)
        if h is not None:
            raise Unsupported('first row of a join')
        self.check()
        t = self.db.table(self.cls)
        if one and not any(c.col in t.keys for c in self.crits):
            raise Unsupported('the only row that matches a criterion that is not a key')
        if ctx.choose(['found', 'not found'], 'row of ' + t.name) == 'found':
            i = loops.witness(ctx, 'row')
            ctx.assume(z3.And(0 <= i, i < t.n))
            row = t.rows.at(i)
            ctx.assume(self.matches(interp, row))
            if not ctx.feasible():
                raise PathKill()
            m = ctx.journal.mark()
            ctx.touch(self.db.found)
            self.db.found.append(row)
            ctx.journal.relabel(m, 'lazy')
            return row
        if not self.crits:
            ctx.assume(t.n == 0)
            return None
        i = z3.Int(ctx.name('i'))
        m = self.matches(interp, Row(self.cls, None, t, i))
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < t.n), z3.Not(m))))
        if not ctx.feasible():
            raise PathKill()
        return None

    def all(self, interp):
        h = self.db.joined.get((self.cls,) + self.joins)
        if h is not None:
            if self.db.pending:
                raise Unsupported('query after rows were added')
            return h(interp, self)
        self.check()
        t = self.db.table(self.cls)
        if not self.crits:
            return interp.alloc([Seg(t.rows)])
        return interp.alloc(loops.filtered(interp, t.rows, lambda row: mk_bool(self.matches(interp, row))))


class DB(Sym):
    """A database session."""

    def __init__(self, h, tables):
        self.h = h
        self.tables = tables
        for t in tables.values():
            t.keys = getattr(t, 'keys', set())
        self.pending, self.stored, self.found = [], [], []
        self.joined = {}
        it = h.interp
        it.eq_models[InstrumentedAttribute] = column_eq
        for cls in tables:
            it.model(cls, lambda i, a, k, cls=cls: self.new(i, cls, a, k))

    def new(self, interp, cls, a, k):
        cols = columns(cls)
        if a or any(x not in cols for x in k):
            interp.raise_py(TypeError('bad keyword of %s' % cls.__name__))
        return Row(cls, dict(k))

    def table(self, cls):
        if cls not in self.tables:
            raise Unsupported('table of %s' % cls)
        return self.tables[cls]

    def method(self, interp, name, args, kwargs):
        ctx = interp.ctx
        if name == 'query' and args and not kwargs:
            if not isinstance(args[0], type) or not all(isinstance(a, (type, InstrumentedAttribute)) for a in args):
                raise Unsupported('query of %r' % (args[0],))
            return Query(self, args[0], cols=args[1:])
        if name == 'get' and len(args) == 2 and not kwargs:
            return Query(self, args[0]).method(interp, 'get', [args[1]], {})
        if name == 'add' and len(args) == 1 and not kwargs:
            ctx.touch(self.pending)
            self.pending.append(args[0])
            return None
        if name == 'add_all' and len(args) == 1 and not kwargs:
            v = args[0]
            if type(v) not in (list, tuple):
                raise Unsupported('add_all of %r' % (v,))
            ctx.touch(self.pending)
            self.pending.extend(v)
            return None
        if name == 'flush':
            return None
        if name == 'commit':
            ctx.touch(self.stored)
            ctx.touch(self.pending)
            self.stored.extend(self.pending)
            del self.pending[:]
            return None
        if name in ('rollback', 'close', 'expunge_all'):
            ctx.touch(self.pending)
            del self.pending[:]
            return None
        raise Unsupported('session.%s' % name)


def column_eq(interp, a, b):
    return Criterion(a.class_, a.key, b)


def text_b64(interp, rope):
    """base64 text of a byte string."""
    return mk_str([R_.BS(R_.norm(rope))])
