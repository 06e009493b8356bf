"""
Check runner: runs the contracts of one property, replays counterexamples on the real code, runs the
concrete battery (cross-check of the engine and search for failing inputs), writes the evidence file.
"""
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import atexit

from . import sym
from .sym import Ctx, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
EVID = os.path.join(VERIF, 'evidence')

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='lslverif.')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        # anything the library writes (config, telemetry, caches) stays in the scratch directory
        os.environ['HOME'] = _scratch
        os.environ['LSLCONFIGDIR'] = os.path.join(_scratch, 'lslconfig')
        os.environ['XDG_CONFIG_HOME'] = _scratch
        os.environ['XDG_CACHE_HOME'] = _scratch
        os.environ['MPLBACKEND'] = 'Agg'
        os.environ['MPLCONFIGDIR'] = _scratch
        os.environ.setdefault('OMP_NUM_THREADS', '2')
    return _scratch


def trail(kind, name, what=''):
    """what runs now, for check.py: compiled code under test may take the process down"""
    f = os.environ.get('LSLVERIF_TRAIL')
    if f:
        with open(f, 'w') as fh:
            json.dump([kind, name, what], fh)


class Failure(Exception):
    """A concrete contract violation on the real code."""
    def __init__(self, msg, inputs=None):
        super().__init__(msg)
        self.inputs = inputs


class _Par:
    def __init__(self, r, workers):
        self.r, self.workers = r, workers

    def __enter__(self):
        self.r._queue = []

    def __exit__(self, et, ev, tb):
        import multiprocessing as mp
        jobs, self.r._queue = self.r._queue, None
        if et is not None:
            return
        ctx = mp.get_context('fork')
        live, done, nxt = {}, {}, 0

        def work(i, conn):
            try:
                out = self.r._explore(jobs[i])
            except BaseException as e:
                out = dict(n=0, d=0, err='worker: %s: %s' % (type(e).__name__, e), trace=None, paths=0, queries=0, solver_s=0, wall_s=0,
                           names=[], unknown=[], assumptions=[], covered={}, failures=[])
            conn.send(out)
            conn.close()
            os._exit(0)
        while nxt < len(jobs) or live:
            while nxt < len(jobs) and len(live) < self.workers:
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=work, args=(nxt, b))
                p.start()
                b.close()
                live[nxt] = (p, a)
                nxt += 1
            for i, (p, a) in list(live.items()):
                if a.poll(0.02):
                    try:
                        done[i] = a.recv()
                    except EOFError:
                        done[i] = dict(n=0, d=0, err='worker ended early', trace=None, paths=0, queries=0, solver_s=0, wall_s=0,
                                       names=[], unknown=[], assumptions=[], covered={}, failures=[])
                    p.join()
                    del live[i]
        for i, j in enumerate(jobs):
            self.r._settle(j, done[i])


class hang_limit:
    """Failure once a single case has used 240 s of processor time (cases take seconds; repeated, since code under test may swallow it)"""
    def _hit(self, *a):
        raise Failure('no result within 240 s of processor time')

    def __enter__(self):
        self.on = threading.current_thread() is threading.main_thread()
        if self.on:
            self.old = signal.signal(signal.SIGPROF, self._hit)
            signal.setitimer(signal.ITIMER_PROF, 240, 5)

    def __exit__(self, *a):
        if self.on:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, self.old)


class Runner:
    def __init__(self, pid, level='proof'):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.contracts = []
        self.assumptions = []
        self.trusted = []
        self.functions = []
        self.violations = []
        self.known = []
        self.battery = {}
        self.notes = []
        self.solver_time = 0.0
        self.obs = 0
        self.dis = 0
        self.undecided = []
        self._queue = None
        self.bounded = []
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:8], 16))
        scratch()
        self.findings = load_findings(pid)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def assume(self, *a):
        for x in a:
            if x not in self.assumptions:
                self.assumptions.append(x)

    def trust(self, *a):
        for x in a:
            if x not in self.trusted:
                self.trusted.append(x)

    # -- symbolic contract ---------------------------------------------------------------
    def contract(self, name, fn, functions=(), replay=None, float_mode='real', timeout_ms=30000,
                 budget=400, min_obligations=1, covers=(), max_paths=4000, bounded=None):
        """fn(ctx) runs one symbolic execution of the real code with obligations.
        replay(inputs)->None|message re-runs the counterexample on the real code."""
        job = dict(name=name, fn=fn, functions=functions, replay=replay, float_mode=float_mode, timeout_ms=timeout_ms, budget=budget,
                   min_obligations=min_obligations, covers=covers, max_paths=max_paths, bounded=bounded)
        if self._queue is not None:
            self._queue.append(job)
            return None
        trail('contract', name)
        return self._settle(job, self._explore(job))

    def parallel(self, workers=8):
        """with r.parallel(): contracts inside are explored in worker processes (fork), settled in order in this one"""
        return _Par(self, workers)

    def _explore(self, job):
        """run one contract; plain data only (crosses a process boundary in parallel mode)"""
        budget, timeout_ms = job['budget'], job['timeout_ms']
        if self.thorough:
            budget *= 5
            timeout_ms *= 4
        cx = Ctx(float_mode=job['float_mode'], timeout_ms=timeout_ms, max_paths=job['max_paths'],
                 deadline=time.process_time() + budget, stop=self.t0 + (36000 if self.thorough else 760))
        t = time.time()
        err = trace = None
        try:
            cx.run(lambda: job['fn'](cx))
        except Unsupported as e:
            err = 'outside the engine subset: %s' % e
        except RecursionError as e:
            err = 'recursion limit'
        except Exception as e:                        # code raised something no contract clause allows
            err = 'unexpected %s: %s' % (type(e).__name__, e)
            trace = traceback.format_exc()[-1500:]
        if err is not None and hasattr(cx, 'solver'):
            # an input that leads there, to be tried on the real code
            try:
                cx.prove('no ' + err.split(':')[0].replace('unexpected ', ''), False)
            except Exception:
                pass
        return dict(n=len(cx.obligations), d=sum(1 for o in cx.obligations if o['status'] == 'discharged'), err=err, trace=trace,
                    paths=cx.paths, queries=cx.queries, solver_s=cx.solver_time, wall_s=time.time() - t,
                    names=sorted(set(o['name'] for o in cx.obligations))[:60], unknown=[str(u) for u in cx.undecided[:10]],
                    assumptions=sorted(cx.assumptions), covered=dict(cx.covered),
                    failures=[dict(f, info=str(f.get('info'))) for f in cx.failures])

    def _settle(self, job, res):
        trail('replay', job['name'], str([f['name'] for f in res['failures'][:3]]))
        name, functions, replay, bounded = job['name'], job['functions'], job['replay'], job['bounded']
        covers, min_obligations = job['covers'], job['min_obligations']
        rec = {'contract': name, 'functions': list(functions)}
        for f in functions:
            if f not in self.functions:
                self.functions.append(f)
        n, d, err = res['n'], res['d'], res['err']
        if res['trace']:
            rec['trace'] = res['trace']
        rec.update(obligations=n, discharged=d, paths=res['paths'], queries=res['queries'],
                   solver_s=round(res['solver_s'], 3), wall_s=round(res['wall_s'], 3),
                   obligation_names=res['names'], unknown=res['unknown'], error=err)
        if bounded:
            rec['bounded'] = bounded
            self.bounded.append('%s: %s' % (name, bounded))
        self.solver_time += res['solver_s']
        for a in res['assumptions']:
            self.assume(a)
        failures = res['failures']
        missing = [c for c in covers if not res['covered'].get(c)]
        if err is None and not failures and (n < min_obligations or missing):
            rec['error'] = err = 'vacuous: %d obligations, uncovered %s' % (n, missing)
        if not bounded:
            self.obs += n
            self.dis += d
        ok = err is None and not failures and not res['unknown']
        rec['status'] = 'proved' if ok and not bounded else ('checked (bounded)' if ok else 'undecided')
        # counterexamples
        for f in failures:
            msg = None
            if replay is not None:
                try:
                    msg = replay(f['inputs'])
                except Failure as e:
                    msg = str(e)
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    if any('/repo/' in x.filename for x in tb):
                        msg = 'real code raised %s: %s' % (type(e).__name__, e)
                    else:
                        f['name'] += ' [replay not possible: %s: %s]' % (type(e).__name__, e)
                    f['replay_error'] = traceback.format_exc()[-1500:]
            else:
                self.violation(f['name'], 'verifier counter-model (no replay available for this obligation)', f, replayed=False)
                rec['status'] = 'VIOLATED'
                break
            if msg:
                self.violation(f['name'], msg, f, replayed=True)
                rec['status'] = 'VIOLATED'
                break
        if failures and rec['status'] != 'VIOLATED':
            rec['refuted'] = [{'name': f['name'], 'inputs': repr(f['inputs'])[:400],
                               'goal': f['goal'][:300], 'replay_error': f.get('replay_error')} for f in failures[:3]]
            rec['status'] = 'undecided'
        if rec['status'] == 'undecided':
            self.undecided.append(rec)
        self.contracts.append(rec)
        return rec

    def ext(self, rec):
        """record the result of a contract decided by another engine (dict like contract())"""
        self.contracts.append(rec)
        for f in rec.get('functions', ()):
            if f not in self.functions:
                self.functions.append(f)
        if rec.get('bounded'):
            self.bounded.append('%s: %s' % (rec['contract'], rec['bounded']))
        else:
            self.obs += rec.get('obligations', 0)
            self.dis += rec.get('discharged', 0)
        self.solver_time += rec.get('solver_s', 0)
        if rec.get('status') == 'undecided':
            self.undecided.append(rec)

    # -- concrete battery ------------------------------------------------------------------
    def concrete(self, name, cases, check, limit_s=60, min_cases=1):
        """Run check(case) (raises Failure / returns message on violation) on the real code."""
        t = time.time()
        n = 0
        distinct = set()
        sample = None
        shown = 0.0
        if self.thorough:
            limit_s *= 5
        try:
            for c in cases:
                if time.time() - t > limit_s:
                    break
                n += 1
                if len(distinct) < 200000:
                    distinct.add(repr(c)[:200])
                if n < 2000 or time.time() - shown > 0.05:
                    shown = time.time()
                    trail('case', name, repr(c)[:2000])
                if sample is None:
                    sample = repr(c)[:300]
                try:
                    with hang_limit():
                        msg = check(c)
                except Failure as e:
                    msg = str(e)
                except Unsupported:
                    raise
                except Exception as e:
                    msg = 'unexpected %s: %s' % (type(e).__name__, e)
                    self.notes.append(traceback.format_exc()[-1200:])
                if msg:
                    if self.is_known(name, c, msg):
                        continue
                    self.violation(name, msg, {'name': name, 'inputs': c}, replayed=True)
                    break
        finally:
            self.battery[name] = {'cases': n, 'distinct': len(distinct), 'sample': sample,
                                  'wall_s': round(time.time() - t, 2)}
        if n < min_cases:
            self.notes.append('battery %s ran only %d cases' % (name, n))

    # -- verdict ---------------------------------------------------------------------------
    def is_known(self, name, case, msg):
        for f in self.findings:
            m = f.get('match')
            m = [m] if isinstance(m, str) else m
            if f.get('where') == name and m and all(x in ('%r %s' % (case, msg)) for x in m):
                line = 'KNOWN-FINDING: property=%s %s' % (self.pid, f['what'])
                if line not in self.known:
                    self.known.append(line)
                return True
        return False

    def violation(self, obligation, msg, detail, replayed):
        self.violations.append({'obligation': obligation, 'message': msg, 'detail': detail, 'replayed': replayed})

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(EVID, exist_ok=True)
        for k in self.known:
            print(k)
        n_proved = sum(1 for c in self.contracts if c['status'] == 'proved')
        cov = {
            'obligations': self.obs, 'discharged': self.dis,
            'checker_cmd': 'python3 check.py %s  (z3 %s via python API; engines pv/sym.py+pv/loader.py, pv/irx.py)' % (self.pid, _z3v()),
            'trusted_base': ['z3 ' + _z3v(), 'CPython 3.12 executing the code under contract',
                             'the proof generators in /verif/pv (cross-checked by the concrete battery of this run)'] + self.trusted,
            'functions_under_contract': self.functions,
            'contracts': [_strip(c) for c in self.contracts],
            'contracts_total': len(self.contracts), 'contracts_proved': n_proved,
            'undecided': [c['contract'] for c in self.undecided],
            'bounded_stand_ins': self.bounded,
            'solver_time_s': round(self.solver_time, 2), 'backend': 'z3 ' + _z3v(),
            'concrete_battery': self.battery,
            'notes': self.notes[:10],
        }
        level = self.level
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.violations) or len(self.undecided)}
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for c in self.contracts:
            print('%-10s %-60s %4d/%-4d obligations %s%s' % (c['status'], c['contract'][:60], c.get('discharged', 0),
                  c.get('obligations', 0), 'solver %.1fs' % c.get('solver_s', 0), (' -- ' + str(c['error'])) if c.get('error') else ''))
            for r in c.get('refuted', []) or []:
                print('           unconfirmed counter-model for:', r['name'], '| inputs', r['inputs'])
        for k, v in self.battery.items():
            print('battery    %-60s %d cases (%d distinct) %.1fs' % (k[:60], v['cases'], v['distinct'], v['wall_s']))
        for c in self.undecided:
            # an obligation the verifier accepts on the unchanged tree is no longer accepted, and no
            # failing input was found: reported as such
            if not self.violations or not any(v['replayed'] for v in self.violations):
                ref = c.get('refuted') or []
                why = ref[0]['name'] if ref else (c.get('error') or (str(c['unknown'][0]) if c.get('unknown') else 'not discharged'))
                self.violation(c['contract'], 'the verifier no longer discharges this contract: %s' % why, _strip(c), replayed=False)
        if self.violations:
            v = self.violations[0]
            rp = os.path.join(EVID, 'replay_%s.json' % self.pid)
            with open(rp, 'w') as fh:
                json.dump({'property': self.pid, 'violations': self.violations}, fh, indent=1, default=str)
            for v in self.violations[:5]:
                print('failed obligation: %s: %s' % (v['obligation'], v['message'][:500]))
            v = self.violations[0]
            print('VIOLATION property=%s replay=%s%s' % (self.pid, rp, '' if any(x['replayed'] for x in self.violations)
                                                         else ' no-failing-input-found'))
            sys.stdout.flush()
            trail('done', '1')
            return 1
        sys.stdout.flush()
        trail('done', '0')
        return 0


def _strip(c):
    return {k: v for k, v in c.items() if v not in (None, [], '')}


def _z3v():
    import z3
    return z3.get_version_string()


def load_findings(pid):
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out
