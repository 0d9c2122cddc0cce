"""Shared harness code of all specifications."""
import os
import sys
import time
import types
import traceback
import z3

sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'


def setup_path():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VENV not in sys.path:
        sys.path.append(VENV)


setup_path()

from engine.core import Ctx, Report, Obligation, PathKill, Unsupported, EngineError, ObligationFailure, Signal  # noqa
from engine.values import *  # noqa
from engine import values as V  # noqa
from engine.interp import (Interp, Seg, OVERLAY, NOTHANDLED, FuncVal, BoundMethod, SymMethod, ModelFn, Frame, mark,  # noqa
                           marked, has_seg, is_repo_func)
from engine import models  # noqa
import engine.interp as _interp_mod

_interp_mod.REPO = REPO.rstrip('/') + '/'


class Outcome:
    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    @property
    def raised(self):
        return self.kind == 'raise'

    def __repr__(self):
        return '%s %r' % (self.kind, self.value)


class H:
    """Harness of one verification unit."""

    def __init__(self, name, budget=600, timeout_ms=8000):
        self.name = name
        self.report = Report()
        self.ctx = Ctx(self.report, timeout_ms)
        self.ctx.deadline = time.time() + budget
        self.ctx.prefix_name = name + ': '
        self.interp = Interp(self.ctx)
        self.failed = None
        self.unsupported = None

    def run(self, body):
        """Explore body() along all paths; collects the verdict in self.report."""
        try:
            self.ctx.explore(body)
        except ObligationFailure as e:
            self.failed = e.ob
        except Unsupported as e:
            self.unsupported = str(e)
            self.tb = traceback.format_exc()
        except RecursionError:
            self.unsupported = 'recursion limit of the verifier'
        except z3.Z3Exception as e:
            self.unsupported = 'z3: %s' % e
            self.tb = traceback.format_exc()
        return self

    def call(self, f, *args, **kwargs):
        """Call a function; returns its Outcome (return value or program exception)."""
        depth = len(self.interp.stack)
        try:
            return Outcome('return', self.interp.call(f, list(args), kwargs))
        except Signal:
            raise
        except RecursionError:
            raise Unsupported('recursion limit')
        except BaseException as e:
            if not marked(e):
                raise EngineError('internal error: %s: %s' % (type(e).__name__, e)) from e
            return Outcome('raise', e)
        finally:
            del self.interp.stack[depth:]

    def method(self, obj, name, *args, **kwargs):
        return self.call(self.interp.load_attr(obj, name), *args, **kwargs)

    def get(self, obj, name):
        return self.interp.load_attr(obj, name)

    # values -----------------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        t = z3.Int(self.ctx.name(name))
        if lo is not None:
            self.ctx.assume(t >= lo)
        if hi is not None:
            self.ctx.assume(t <= hi)
        return SInt(t)

    def real(self, name):
        return SReal(z3.Real(self.ctx.name(name)))

    def str(self, name):
        return mk_str([ZS(z3.String(self.ctx.name(name)))])

    def bool(self, name):
        return SBool(z3.Bool(self.ctx.name(name)))

    def enum(self, cls, name, among=None):
        t = z3.Int(self.ctx.name(name))
        self.ctx.assume(z3.Or([t == m.value for m in (among or cls)]))
        return self.interp.mk_enum(cls, t)

    def choose(self, opts, what=''):
        return self.ctx.choose(opts, what)

    def check(self, name, cond, detail=None):
        if isinstance(cond, SBool):
            cond = cond.t
        self.ctx.check(name, cond, detail)

    def eq(self, a, b):
        r = self.interp.eq(a, b)
        return r.t if isinstance(r, SBool) else (z3.BoolVal(r) if isinstance(r, bool) else z3.BoolVal(self.interp.truth(r)))

    def cover(self, name):
        self.ctx.cover(name)


UNITS = {}


def unit(prop, name=None, tier='quick', budget=600):
    """Register a verification unit of a property."""
    def deco(f):
        UNITS.setdefault(prop, []).append(dict(name=name or f.__name__, fn=f, tier=tier, budget=budget))
        return f
    return deco


def add_unit(prop, name, fn, tier='quick', budget=600):
    UNITS.setdefault(prop, []).append(dict(name=name, fn=fn, tier=tier, budget=budget))


def enum_term(v):
    return v.t if isinstance(v, SEnum) else z3.IntVal(v.value)
