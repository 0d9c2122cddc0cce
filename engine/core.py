"""pyvc core: path exploration, solver interface, obligations, journal.

The verifier executes the *real* function bodies (AST of the files under /repo) on symbolic values.  Every
feasible path is explored (depth-first over recorded decisions); every proof obligation met on a path is sent to
z3 (and, if z3 gives up, to cvc5).  Nothing is bounded by a step count: loops over symbolic data are cut at their
heads by invariants (see loops.py), a loop that can not be cut makes the run fail with Unsupported.
"""
import subprocess
import tempfile
import os
import time
import z3


class Signal(BaseException):
    """Engine control flow; never visible to interpreted code."""


class PathKill(Signal):
    """The current path is infeasible or was ended on purpose (loop back edge)."""


class Unsupported(Signal):
    """The verifier can not express something the code does (no verdict)."""


class EngineError(Unsupported):
    pass


class ObligationFailure(Signal):
    def __init__(self, ob):
        self.ob = ob


class Obligation:
    def __init__(self, name, status, backend, seconds, detail=None, model=None, path=None):
        self.name, self.status, self.backend, self.seconds = name, status, backend, seconds
        self.detail, self.model, self.path = detail, model, path


class Journal:
    """Undo log of every heap write performed by interpreted code."""

    def __init__(self):
        self.log = []      # (kind, obj, key, old)
        self.listeners = []

    def mark(self):
        return len(self.log)

    def undo(self, mark):
        while len(self.log) > mark:
            undo = self.log.pop()[3]
            undo()

    def relabel(self, mark, kind):
        for n in range(mark, len(self.log)):
            self.log[n] = (kind,) + self.log[n][1:]

    def record(self, kind, obj, key, undo):
        self.log.append((kind, obj, key, undo))
        for l in self.listeners:
            l(kind, obj, key)


_MISSING = object()


class Level:
    """One (possibly nested) exploration: a stack of decisions."""

    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.pending = []


class Ctx:
    def __init__(self, report, timeout_ms=8000):
        self.report = report
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', 1)
        # quantifier-free view of the same assumptions: decides feasibility of branches (fewer assumptions only make
        # more paths look feasible, obligations use all of them)
        self.slow = 0
        self.fsolver = z3.Solver()
        self.fsolver.set('timeout', 2000)
        self.fsolver.set('random_seed', 1)
        self.setnames = {}
        self._axioms = set()
        self.assumed = []          # stack of z3 formulas in force (mirrors solver)
        self.levels = []
        self.journal = Journal()
        self.fresh = 0
        self.solver_time = 0.0
        self.deadline = None
        self.paths = 0
        self.prefix_name = ''
        self.notes = []
        self.on_path_start = []
        self.covers = {}
        from . import values
        values.CTX[0] = self

    # ------------------------------------------------------------------ names
    def name(self, base):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)

    # ------------------------------------------------------------- assumptions
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathKill()
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathKill()
        self._add(f)

    def _add(self, f):
        if z3.is_and(f) and has_quant(f):
            for c in f.children():
                self._add(c)
            return
        self.solver.add(f)
        self.assumed.append(f)
        if not has_quant(f):
            self.fsolver.add(f)

    def set_axioms(self, name):
        """True if the axioms of that set constant are not in force on this path yet."""
        if name in self._axioms:
            return False
        self._axioms.add(name)
        self.journal.record('axiom', self, name, lambda: self._axioms.discard(name))
        return True

    def _fcheck(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the check exhausted')
        t = time.time()
        if any(has_quant(e) for e in extra):
            r = z3.unknown
        else:
            if self.slow >= 3:
                # the incremental solver has collected too much: start from the facts in force
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add([f for f in self.assumed if not has_quant(f)])
                r = s.check(*extra)
            else:
                r = self.fsolver.check(*extra)
                if time.time() - t > 0.1:
                    self.slow += 1
        self.solver_time += time.time() - t
        return r

    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the check exhausted')
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def feasible(self, f=None):
        if f is None:
            return self._fcheck() != z3.unsat
        return self._fcheck(f) != z3.unsat

    def entails(self, f):
        """Quick entailment test (no obligation)."""
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return self._fcheck(z3.Not(f)) == z3.unsat

    # ---------------------------------------------------------------- decisions
    def branch(self, cond):
        """Decide a condition; explores both outcomes if both are feasible."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        lv = self.levels[-1]
        if lv.pos < len(lv.prefix):
            d = lv.prefix[lv.pos]
            lv.pos += 1
            if d[1]:
                f = cond if d[0] else z3.Not(cond)
                self._add(f)
            return d[0]
        t = self._fcheck(cond)
        if t == z3.unsat:
            lv.prefix.append((False, False))
            lv.pos += 1
            return False
        f = self._fcheck(z3.Not(cond))
        if f == z3.unsat:
            lv.prefix.append((True, False))
            lv.pos += 1
            return True
        lv.pending.append(lv.prefix[:lv.pos] + [(False, True)])
        lv.prefix.append((True, True))
        lv.pos += 1
        self._add(cond)
        return True

    def choose(self, options, what=''):
        """Non-deterministic choice among concrete options (all explored)."""
        options = list(options)
        if not options:
            raise PathKill()
        if len(options) == 1:
            return options[0]
        lv = self.levels[-1]
        if lv.pos < len(lv.prefix):
            d = lv.prefix[lv.pos]
            lv.pos += 1
            return options[d[0]]
        for k in range(len(options) - 1, 0, -1):
            lv.pending.append(lv.prefix[:lv.pos] + [(k, False)])
        lv.prefix.append((0, False))
        lv.pos += 1
        return options[0]

    # --------------------------------------------------------------- exploration
    def explore(self, fn, on_outcome=None, max_paths=200000, undo=True):
        """Run fn() along every feasible path from the current state.

        Returns the list of outcomes: on_outcome() results (or fn's return value).  Heap writes are undone after
        each path (and at the end)."""
        lv = Level()
        todo = [[]]
        results = []
        n = 0
        while todo:
            lv.prefix = todo.pop()
            lv.pos = 0
            lv.pending = []
            n += 1
            self.paths += 1
            if n > max_paths:
                raise Unsupported('path limit')
            mark = self.journal.mark()
            na = len(self.assumed)
            self.solver.push()
            self.fsolver.push()
            self.levels.append(lv)
            try:
                results.append(fn())
            except PathKill:
                pass
            finally:
                self.levels.pop()
                self.solver.pop()
                self.fsolver.pop()
                del self.assumed[na:]
                self.journal.undo(mark)
            todo.extend(lv.pending)
        return results

    # --------------------------------------------------------------- obligations
    def check(self, name, f, detail=None):
        """Proof obligation: f must hold here (on this path)."""
        name = self.prefix_name + name
        if isinstance(f, bool):
            if f:
                self.report.add(Obligation(name, 'discharged', 'eval', 0.0))
                return
            # infeasible path?
            f = z3.BoolVal(False)
        f = z3.simplify(f)
        if z3.is_true(f):
            self.report.add(Obligation(name, 'discharged', 'simplify', 0.0))
            return
        if any(lv.pos < len(lv.prefix) for lv in self.levels):
            # re-execution of a prefix shared with an earlier path, on which this very obligation was discharged
            self.assume(f)
            return
        t = time.time()
        r = z3.unknown
        if not has_quant(f):
            r = self._fcheck(z3.Not(f))
        if r != z3.unsat:
            r = self._check(z3.Not(f))
        dt = time.time() - t
        backend = 'z3'
        model = None
        if r == z3.sat:
            model = self.solver.model()
        if r == z3.unknown:
            r, backend, model, dt2 = self._retry(z3.Not(f))
            dt += dt2
        if r == z3.unsat:
            self.report.add(Obligation(name, 'discharged', backend, dt))
            self.assume(f)
            return
        status = 'failed' if r == z3.sat else 'unknown'
        ob = Obligation(name, status, backend, dt, detail=detail if detail else str(f)[:2000],
                        model=model_to_dict(model), path=[str(a)[:300] for a in self.assumed[-40:]])
        self.report.add(ob)
        raise ObligationFailure(ob)

    def _retry(self, neg):
        """Second and third opinion on a query the incremental solver could not decide."""
        t = time.time()
        for seed, extra in ((7, {}), (23, {'smt.mbqi': False}), (5, {'auto_config': False, 'smt.mbqi': True})):
            s = z3.Solver()
            s.set('timeout', self.timeout_ms * 3)
            s.set('random_seed', seed)
            for k, v in extra.items():
                try:
                    s.set(k, v)
                except z3.Z3Exception:
                    pass
            s.add(self.assumed)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return r, 'z3(seed %d)' % seed, None, time.time() - t
            if r == z3.sat:
                return r, 'z3(seed %d)' % seed, s.model(), time.time() - t
        s = z3.Solver()
        s.add(self.assumed)
        s.add(neg)
        r = cvc5_check(s.to_smt2(), 30)
        self.solver_time += time.time() - t
        return {'unsat': z3.unsat, 'sat': z3.unknown}.get(r, z3.unknown), 'cvc5', None, time.time() - t

    def cover(self, name):
        """Reachability witness: the path conditions here must be satisfiable (guards against vacuity)."""
        name = self.prefix_name + name
        if self.covers.get(name):
            return
        r = self._fcheck()
        self.covers[name] = (r != z3.unsat)
        self.report.cover(name, self.covers[name])

    # ------------------------------------------------------------------ journal
    def set_attr(self, obj, name, value):
        d = getattr(obj, '__dict__', None)
        if isinstance(obj, type):
            old = obj.__dict__.get(name, _MISSING)
        elif d is not None:
            old = d.get(name, _MISSING)
        else:
            raise Unsupported('attribute store on %s' % type(obj).__name__)

        def undo():
            if old is _MISSING:
                if isinstance(obj, type):
                    type.__delattr__(obj, name)
                else:
                    d.pop(name, None)
            elif isinstance(obj, type):
                type.__setattr__(obj, name, old)
            else:
                d[name] = old
        self.journal.record('attr', obj, name, undo)
        if isinstance(obj, type):
            type.__setattr__(obj, name, value)
        else:
            d[name] = value

    def del_attr(self, obj, name):
        d = obj.__dict__
        if name not in d:
            raise AttributeError(name)
        old = d[name]
        self.journal.record('attr', obj, name, lambda: d.__setitem__(name, old))
        del d[name]

    def touch(self, obj):
        """Call before mutating a native container in place."""
        if isinstance(obj, list):
            old = list(obj)
            self.journal.record('list', obj, None, lambda: obj.__setitem__(slice(None), old))
        elif isinstance(obj, dict):
            old = dict(obj)

            def undo():
                obj.clear()
                obj.update(old)
            self.journal.record('dict', obj, None, undo)
        elif isinstance(obj, set):
            old = set(obj)

            def undo2():
                obj.clear()
                obj.update(old)
            self.journal.record('set', obj, None, undo2)
        elif isinstance(obj, bytearray):
            old = bytes(obj)
            self.journal.record('bytearray', obj, None, lambda: obj.__setitem__(slice(None), old))
        else:
            raise Unsupported('mutation of %s' % type(obj).__name__)

    def set_cell(self, obj, name, value):
        """Journaled write of an engine-level field (symbolic containers)."""
        old = getattr(obj, name)
        self.journal.record('cell', obj, name, lambda: object.__setattr__(obj, name, old))
        object.__setattr__(obj, name, value)


_quant = {}


def has_quant(f):
    if not z3.is_expr(f):
        return False
    todo = [f]
    while todo:
        e = todo[-1]
        if e.get_id() in _quant:
            todo.pop()
            continue
        if z3.is_quantifier(e):
            _quant[e.get_id()] = (e, True)
            todo.pop()
            continue
        cs = e.children()
        rest = [c for c in cs if c.get_id() not in _quant]
        if rest:
            todo.extend(rest)
            continue
        todo.pop()
        _quant[e.get_id()] = (e, any(_quant[c.get_id()][1] for c in cs))
    return _quant[f.get_id()][1]


def model_to_dict(model):
    if model is None:
        return None
    out = {}
    try:
        for d in model.decls():
            if d.arity() == 0:
                out[d.name()] = str(model[d])[:200]
            else:
                out[d.name()] = str(model[d])[:300]
    except z3.Z3Exception:
        pass
    return out


def cvc5_check(smt2, seconds):
    exe = None
    for c in ('/usr/bin/cvc5', '/usr/local/bin/cvc5', '/opt/veriftools/bin/cvc5'):
        if os.path.exists(c):
            exe = c
            break
    if exe is None:
        exe = 'cvc5'
    fd, path = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + '\n'.join(l for l in smt2.splitlines() if not l.startswith('(set-info')))
        try:
            p = subprocess.run([exe, '--strings-exp', '--tlimit=%d' % (seconds * 1000), path], capture_output=True,
                               text=True, timeout=seconds + 10)
            first = p.stdout.strip().splitlines()[:1]
            return first[0] if first else 'unknown'
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
    finally:
        os.unlink(path)


class Report:
    """Collects the obligations of one property run."""

    def __init__(self):
        self.obligations = []
        self.covers = {}
        self.functions = set()
        self.unsupported = []
        self.assumptions = []
        self.inlined = set()

    def add(self, ob):
        self.obligations.append(ob)

    def cover(self, name, ok):
        self.covers[name] = self.covers.get(name, False) or ok
