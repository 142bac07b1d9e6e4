"""Proof units: each verifies one function (or one group of cases of it) of the real code against its contract."""
import multiprocessing, os, sys, time, traceback
from .sym import *
from . import sym, lib as L
from .types import parse_type
from .interp import Interp
from .frontend import Program, sources


class Unit:
    """harness(I, p): set up an arbitrary pre-state, run the real function, state the postconditions"""

    def __init__(self, name, fn, harness, rules=None, contracts=(), ctx=None, budget=150, thorough_only=False, props=()):
        self.name, self.fn, self.harness, self.rules, self.use, self.ctx, self.budget = \
            name, fn, harness, rules or {}, contracts, ctx or {}, budget
        self.thorough_only = thorough_only


class Result:
    def __init__(self, unit):
        self.unit = unit.name
        self.fn = unit.fn
        self.status = 'ok'          # ok | failed | undecided | limit
        self.reason = ''
        self.obls = []
        self.paths = self.queries = 0
        self.secs = self.solver = 0.0
        self.inlined = []
        self.completed = 0

    def summary(self):
        return '%-46s %-9s obl=%d paths=%d %.1fs %s' % (self.unit, self.status, len(self.obls), self.paths, self.secs, self.reason[:300])


def run_unit(prog, unit, debug=False):
    r, hazy = run_unit1(prog, unit, debug)
    if hazy:
        r2, _ = run_unit1(prog, unit, debug, 5)      # with more time for each question
        r2.secs += r.secs
        r = r2
    return r


def run_unit1(prog, unit, debug=False, scale=1):
    r = Result(unit)
    t0 = time.time()
    ex = Explorer(unit.fn, budget_s=min(unit.budget * min(scale, 2), _G.get('deadline', t0 + 1e6) - t0))
    inlined = set()
    if 'feas_ms' in unit.ctx:
        ex.feas_ms = unit.ctx['feas_ms']
    ex.feas_ms *= scale
    ex.scale = scale
    hazy = False
    try:
        def body(p):
            ctx = dict(unit.ctx)
            ctx['inlined'] = inlined
            rules = unit.rules

            def rule(I, key, n):
                for k, v in rules.items():
                    if k == key or k == key[0] or k == '*' or (isinstance(k, str) and k == '%s#%d' % key):
                        return v(I, key, n) if callable(v) and not hasattr(v, 'head') else v
                return None
            ctx['rule'] = rule if rules else None
            I = Interp(prog, p, {c.name: c for c in unit.use}, ctx)
            p.I = I
            unit.harness(I, p)
        ex.run(body)
        bad = [o for o in ex.obls if o.status == 'failed']
        und = [o for o in ex.obls if o.status == 'undecided']
        hazy = bool(bad) and all(o.hazy for o in bad)      # the solver left questions open for want of time before each
        if bad:
            r.status = 'failed'
            r.reason = '; '.join(sorted({'%s: %s' % (o.fn, o.label) for o in bad}))
        elif und:
            r.status = 'undecided'
            r.reason = '; '.join(sorted({'%s: %s' % (o.fn, o.label) for o in und}))
        elif ex.completed == 0:
            r.status = 'limit'
            r.reason = 'vacuous: no path reaches the end of the function'
        elif not ex.obls:
            r.status = 'limit'
            r.reason = 'no obligation generated'
    except ToolLimit as e:
        bad = [o for o in ex.obls if o.status == 'failed']
        r.status = 'limit'
        r.reason = str(e)
        if debug:
            traceback.print_exc()
    except RecursionError:
        r.status, r.reason = 'limit', 'recursion'
    except CppThrow as e:
        r.status, r.reason = 'limit', 'uncaught C++ exception %s in a harness' % e.cls
        if debug:
            traceback.print_exc()
    except Exception as e:      # an internal error of the verifier is a limit of the tool, never a verdict
        r.status, r.reason = 'limit', 'internal: %r' % (e,)
        if debug:
            traceback.print_exc()
    r.obls = [dict(fn=o.fn, label=o.label, kind=o.kind, status=o.status, backend=o.backend, secs=round(o.secs, 3),
                   detail=o.detail if o.status != 'discharged' else '', model=str(o.model)[:4000] if o.model is not None else None,
                   hint=o.model if isinstance(o.model, dict) else None) for o in ex.obls]
    r.paths, r.queries, r.solver = ex.paths, ex.queries, ex.solver_time
    r.completed = ex.completed
    r.inlined = sorted(inlined)
    r.secs = time.time() - t0
    return r, hazy


_G = {}


def _work(i):
    try:
        return run_unit(_G['prog'], _G['units'][i])
    except BaseException as e:
        r = Result(_G['units'][i])
        r.status, r.reason = 'limit', 'crash: %r' % (e,)
        return r


def run_units(prog, units, jobs=8, seconds=1e6):
    """seconds: time for all of them together; a unit not finished by then is reported as not decided"""
    end = time.time() + seconds
    _G['prog'], _G['units'], _G['deadline'] = prog, units, end
    if len(units) <= 1 or jobs == 1:
        return [_work(i) for i in range(len(units))]
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(min(jobs, len(units)), maxtasksperchild=1)
    try:
        rs = [pool.apply_async(_work, (i,)) for i in range(len(units))]
        out = []
        for i, a in enumerate(rs):
            try:
                out.append(a.get(max(1, end + 100 - time.time())))
            except multiprocessing.TimeoutError:
                r = Result(units[i])
                r.status, r.reason, r.completed, r.secs = 'limit', 'no answer in the time for all units', 0, seconds
                out.append(r)
        return out
    finally:
        pool.terminate()


def the_fn(I, cls, name, nargs=None):
    c = [f for f in I.P.funcs.get(name, []) if f['_cls'] == cls]
    if nargs is not None:
        c = [f for f in c if len(I.params(f)) == nargs]
    if not c:
        raise ToolLimit('function %s not found' % (cls + '::' + name if cls else name))
    return c[0]


def construct(I, cls, vals, nargs=None):
    """an object of a repository class built by its real constructor -> LV"""
    fn = the_fn(I, cls, cls, len(vals) if nargs is None else nargs)
    lv = I.p.newlv('obj.' + cls, Rec(cls, {}), parse_type('ion::' + cls))
    I.run_ctor(fn, cls, lv, vals)
    return lv


def snapshot(I, key, build):
    """result of build() (which must take no decision and add no fact): executed on the first path only"""
    p = I.p
    st = p.ex.persist.get(('snap', key))
    if st is None:
        assert not p.mem and not p.dec
        r = build()
        if p.dec or p.factset:
            raise ToolLimit('snapshot of a construction that is not concrete')
        st = p.ex.persist[('snap', key)] = (dict(p.mem), dict(p.cellkeys), dict(p.names), r, dict(I.globals))
        return r
    p.mem.update(st[0])
    p.cellkeys.update(st[1])
    p.names.update(st[2])
    I.globals.update(st[4])
    return st[3]
