"""python3-vt -m vc.check <property>: decides one property on /repo's current tree.

Deciding step: the obligations generated from the current sources (vc.verify).  The compiled real code is then driven
(sanitized build) with the counterexamples of failed obligations and with boundary and seeded inputs against an
executable form of the contracts: it gives a failed obligation its failing input, and stands in, labelled bounded, for
what the verifier could not decide.
Exit 0: held.  Exit 1 with VIOLATION lines otherwise.
"""
import importlib, json, os, random, re, sys, time, traceback
from . import build as B
from .frontend import Program, sources, FrontendError, VERIF, DROPPED, REPO

TRUSTED = [
    "clang++-19's parser and type checker (the typed AST of the current sources is what is verified)",
    'the verification-condition generator /verif/vc (symbolic execution of that AST)',
    'z3 (python3-vt) and cvc5 1.1.2 as back ends',
    'the models of the C++ standard library, libc, OpenSSL and spdlog in /verif/vc/lib.py',
]
ASSUME = [
    'allocation never fails; no other thread touches the objects of the function under verification',
    'machine arithmetic is modelled at its real width (not mathematical)',
]


class RealCtx:
    """collects the cases of the real-code layer"""

    def __init__(self, prop, tier, seed, hints):
        self.prop, self.tier, self.seed, self.hints = prop, tier, seed, hints
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.thorough = tier == 'thorough'
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.violations = []     # dict(key, what, expected, got, commands, driver)
        self.rules = []
        self.parts = {}
        self.limits = []
        self.deadline = time.time() + (600 if self.thorough else 240)

    def scale(self, n):
        k = {'C07': 2, 'C01': 3, 'C02': 3, 'C03': 3, 'C04': 3, 'C05': 5, 'C06': 5}.get(self.prop, 10)
        return n * k * (10 if self.thorough else 1)

    def case(self, part, key, ok, what='', expected='', got='', commands=(), driver='', sample=None, trivial=False):
        """one execution of the real code compared with the oracle"""
        self.evaluations += 1
        self.parts[part] = self.parts.get(part, 0) + 1
        if not trivial:
            self.keys.add((part, key if isinstance(key, (str, int, bytes, tuple)) else repr(key)))
        if sample is not None or (self.parts[part] in (1, 7, 50) and len(self.samples) < 40):
            self.samples.append({'part': part, 'case': str(what)[:400], 'expected': str(expected)[:400], 'got': str(got)[:400]})
        if not ok:
            self.violation(part, what, expected, got, commands, driver)
        return ok

    def violation(self, part, what, expected, got, commands=(), driver='', key=None):
        if len(self.violations) < 200:
            self.violations.append(dict(part=part, key=key or part, what=str(what)[:3000], expected=str(expected)[:3000], got=str(got)[:6000],
                                        commands=[str(c)[:200000] for c in commands][-2000:], driver=str(driver)))

    def limit(self, text):
        self.limits.append(text)

    def expired(self):
        return time.time() > self.deadline


def load_known():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append((m.group(1), m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def main(argv):
    pid = argv[0]
    debug = '--debug' in argv
    noreal, noproof = '--noreal' in argv, '--noproof' in argv
    only = [a[2:] for a in argv[1:] if a.startswith('-u')]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from contracts.registry import PROPS
    P = PROPS[pid]
    limits, results = [], []
    # --- proof ------------------------------------------------------------------------------------
    if not noproof and P.get('units'):
        try:
            from .verify import run_units
            prog = Program(sources(P.get('dirs', ('lib',))))
            us = [u for f in P['units'] for u in f()]
            us = [u for u in us if not u.thorough_only or tier == 'thorough']
            if only:
                us = [u for u in us if any(o in u.name for o in only)]
            results = run_units(prog, us, seconds=1500 if tier == 'thorough' else 420)
        except FrontendError as e:
            limits.append('front end: %s' % e)
        except Exception as e:
            limits.append('verifier: %r' % (e,))
            if debug:
                traceback.print_exc()
    t1 = time.time()
    failed = [r for r in results if r.status == 'failed']
    open_ = [r for r in results if r.status in ('undecided', 'limit')]
    hints = [(r.unit, o['label'], o.get('hint')) for r in failed + open_ for o in r.obls if o['status'] == 'failed' and o.get('hint') is not None]
    if debug:
        for r in results:
            print(r.summary())
            for o in r.obls:
                if o['status'] != 'discharged':
                    print('   ', o['status'], o['fn'], '|', o['label'], '|', o['kind'], '|', o['detail'][:300], '|', (o['model'] or '')[:600])
    # --- real code --------------------------------------------------------------------------------
    rc = RealCtx(pid, tier, seed, hints)
    if not noreal:
        for f in P.get('real', ()):
            try:
                f(rc)
            except B.BuildError as e:
                rc.limit('driver does not build against the current tree: %s' % str(e)[-1500:])
            except B.Crash as e:
                rc.violation('crash', 'the real code ended abnormally (status %s)' % e.rc, 'an answer', e.err, [e.cmd], 'driver')
            except Exception as e:
                rc.limit('replay layer: %r' % (e,))
                if debug:
                    traceback.print_exc()
    # --- verdict ----------------------------------------------------------------------------------
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines, nviol = [], 0
    known = load_known()
    fresh, seen_known = [], {}
    for v in rc.violations:
        k = [x for x in known if x[0] == pid and x[1] == v['key']]
        if k:
            seen_known[k[0]] = v
        else:
            fresh.append(v)
    for k in seen_known:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    fail_txt = [dict(unit=r.unit, function=o['fn'], obligation=o['label'], kind=o['kind'], detail=o['detail'], model=o['model'])
                for r in failed for o in r.obls if o['status'] == 'failed']
    path = os.path.join(rdir, '%s.json' % pid)
    if os.path.exists(path):
        os.unlink(path)
    if fresh or failed:
        json.dump(dict(property=pid, tier=tier, seed=seed, failing_inputs=fresh[:50], failed_obligations=fail_txt[:50],
                       how='commands are the line protocol of the driver built from /verif/drivers and /repo (python3-vt -m vc.check %s rebuilds it)' % pid),
                  open(path, 'w'), indent=1, default=str)
    if fresh:
        nviol = len(fresh)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif failed and not seen_known:
        nviol = len(fail_txt)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    # --- evidence ---------------------------------------------------------------------------------
    obls = [o for r in results for o in r.obls]
    disc = [o for o in obls if o['status'] == 'discharged']
    backends = {}
    for o in disc:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    cov = dict(
        obligations=len(obls), discharged=len(disc),
        checker_cmd='cd /verif && VERIF_TIER=%s VERIF_SEED=%d python3-vt -m vc.check %s' % (tier, seed, pid),
        trusted_base=TRUSTED + list(P.get('trusted', ())),
        functions_under_contract=sorted({r.fn for r in results if r.fn != 'lemma'}),
        functions_inlined=sorted({f for r in results for f in r.inlined}) if results else [],
        units=[dict(unit=r.unit, status=r.status, obligations=len(r.obls), paths=r.paths, secs=round(r.secs, 2), solver_s=round(r.solver, 2),
                    queries=r.queries, **({'reason': r.reason[:600]} if r.status != 'ok' else {})) for r in results],
        discharged_by=backends, solver_s=round(sum(r.solver for r in results), 2), proof_wall_s=round(t1 - t0, 2),
        not_proved=[dict(unit=r.unit, status=r.status, reason=r.reason[:600], stands_in='bounded: the real-code cases below') for r in open_] + limits,
        extraction_drops=DROPPED,
        bounded_parts=list(P.get('bounded', ())),
        evaluations=rc.evaluations, distinct_nontrivial=len(rc.keys),
        rule='; '.join(rc.rules) or 'no real-code cases in this run',
        cases_by_part=rc.parts, samples=rc.samples[:12] or [r.unit for r in results][:3], replay_layer_limits=rc.limits,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov,
              assumptions=ASSUME + list(P.get('assume', ())), wall_s=round(time.time() - t0, 2), violations=nviol)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    tmp = p + '.%d' % os.getpid()
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, p)
    for l in lines:
        print(l)
    print('%s %s: units %d ok, %d failed, %d not decided; obligations %d/%d discharged; real-code cases %d; %.1f s%s' % (
        pid, tier, sum(r.status == 'ok' for r in results), len(failed), len(open_), len(disc), len(obls), rc.evaluations, time.time() - t0,
        ('; limits: ' + '; '.join(limits + rc.limits)[:600]) if limits or rc.limits else ''))
    for r in failed + open_:
        print('  %s %s: %s' % (r.status, r.unit, r.reason[:300]))
    for v in fresh[:3]:
        print('  failing input [%s] %s\n    expected %s\n    got %s' % (v['part'], v['what'][:300], v['expected'][:300], v['got'][:600]))
    return 1 if fresh or (failed and not seen_known) else 0


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    try:
        rc_ = main(sys.argv[1:])
    except BaseException as e:      # an internal error is no verdict: report it, quietly for the caller
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        print('internal error of the check: %r' % (e,))
        rc_ = 2
    sys.stdout.flush()
    os._exit(rc_)
