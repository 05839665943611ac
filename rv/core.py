"""Runner, event recorder and verdict discipline.

Every property module defines

    ID, LEVEL, RULE            strings (RULE: what makes a case non-trivial)
    QUICK, THOROUGH            number of generated cases per tier
    REQUIRED                   oracles that must have been evaluated
    case(ctx, rng, i)          drives the real code once, feeding the oracles

Verdicts are three-valued: a Violation (exit 1, with a replay file), held on
everything observed (exit 0), or inconclusive (exit 2: an oracle that decides
the property was never reached, or the run was cut short before enough cases).
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')


class Violation(Exception):
    """An oracle refuted the property on an observed execution."""

    def __init__(self, oracle, message, mechanism=None):
        super().__init__(f'[{oracle}] {message}')
        self.oracle = oracle
        self.message = message
        self.mechanism = mechanism


# --------------------------------------------------------------------------
# digests and flattening of results

FIELDS = {
    'MultiResolutionQuantity': ['formalism', 'gamint', 'nj', 'values', 'nrep'],
    'StructureFunction': ['formalism', 'gamint', 'nj', 'nrep', 'q', 'j1', 'j2',
                          'weighted', 'j', 'values', 'logvalues', 'zeta', 'H',
                          'intercept'],
    'Cumulants': ['formalism', 'nj', 'nrep', 'n_cumul', 'j1', 'j2', 'weighted',
                  'm', 'j', 'values', 'log_cumulants', 'var_log_cumulants'],
    'MultifractalSpectrum': ['formalism', 'nj', 'nrep', 'j', 'j1', 'j2',
                             'weighted', 'q', 'Dq', 'hq', 'U', 'V'],
    'BiCumulants': ['formalism', 'nj', 'n_cumul', 'j1', 'j2', 'weighted', 'j',
                    'm', 'values', 'log_cumulants', 'slope', 'intercept',
                    'RHO_MF', 'rho_mf'],
    'BiStructureFunction': ['formalism', 'nj', 'j1', 'j2', 'q1', 'q2',
                            'weighted', 'j', 'logvalues', 'zeta', 'intercept',
                            'gamint', 'coherence'],
}


def flatten(obj, path=''):
    """Yields (path, leaf) for the documented content of a result."""
    name = type(obj).__name__
    if name in FIELDS:
        yield path + '.type', name
        for f in FIELDS[name]:
            yield from flatten(getattr(obj, f), f'{path}.{f}')
    elif hasattr(obj, '_fields'):
        yield path + '.fields', ','.join(obj._fields)
        for f in obj._fields:
            yield from flatten(getattr(obj, f), f'{path}.{f}')
    elif isinstance(obj, dict):
        yield path + '.keys', ','.join(map(str, obj))
        for k in obj:
            yield from flatten(obj[k], f'{path}[{k}]')
    elif isinstance(obj, (list, tuple)):
        yield path + '.len', len(obj)
        for k, v in enumerate(obj):
            yield from flatten(v, f'{path}[{k}]')
    else:
        yield path, obj


def is_num(x):
    return (isinstance(x, (bool, int, float, complex, np.number, np.bool_))
            or (isinstance(x, np.ndarray) and x.dtype.kind in 'biufc'))


def digest(obj):
    h = hashlib.sha1()
    for path, leaf in flatten(obj):
        h.update(path.encode())
        if isinstance(leaf, np.ndarray):
            h.update(str((leaf.shape, leaf.dtype.str)).encode())
            h.update(np.ascontiguousarray(leaf).tobytes())
        elif isinstance(leaf, (float, np.floating)):
            h.update(np.float64(leaf).tobytes())
        else:
            h.update(repr(leaf).encode())
    return h.hexdigest()[:16]


def describe(x, limit=160):
    if isinstance(x, np.ndarray):
        s = f'ndarray{x.shape}{x.dtype.str}#{digest(x)[:8]}'
        if x.size <= 6:
            s += ' ' + np.array2string(x, precision=17, separator=',')
    else:
        s = repr(x)
    s = ' '.join(s.split())
    return s if len(s) <= limit else s[:limit] + '...'


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return x if np.isfinite(x) else str(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist()) if x.size <= 32 else describe(x)
    if x is None or isinstance(x, (int, str)):
        return x
    return describe(x)


# --------------------------------------------------------------------------
# context of one case: event recorder + oracles

class Ctx:

    def __init__(self, prop, tier, index, known=()):
        self.prop, self.tier, self.index = prop, tier, index
        self.events = []
        self.lock = threading.Lock()
        self.oracles = collections.Counter()
        self.values = 0             # numbers compared by the oracles
        self.worst = {}             # oracle -> worst error / tolerance
        self.params = {}
        self.known = known
        self.known_hits = collections.Counter()
        self.states = set()

    # -- events ---------------------------------------------------------

    def _event(self, **kw):
        with self.lock:
            kw['seq'] = len(self.events)
            self.events.append(kw)
        return kw

    def call(self, fn, *args, **kwargs):
        """Calls the real code, recording call and return at the boundary."""
        name = getattr(fn, '__qualname__', None) or type(fn).__name__
        ev = self._event(kind='call', op=name, thread=threading.get_ident(),
                         args=[describe(a, 80) for a in args],
                         kwargs={k: describe(v, 80)
                                 for k, v in kwargs.items()})
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            try:
                out = fn(*args, **kwargs)
            except Exception as e:
                self._event(kind='raise', op=name, of=ev['seq'],
                            exc=f'{type(e).__name__}: {e}'[:200])
                raise
        self.last_warnings = rec
        self._event(kind='return', op=name, of=ev['seq'])
        return out

    def raises(self, oracle, exc, fn, *args, **kwargs):
        try:
            self.call(fn, *args, **kwargs)
        except exc:
            self.oracles[oracle] += 1
            return
        except Exception as e:
            self.fail(oracle, f'raised {type(e).__name__} ({e}) instead of '
                      f'{exc}')
        self.fail(oracle, f'did not raise {exc}')

    def state(self, *what):
        self.states.add(hashlib.sha1(repr(what).encode()).hexdigest()[:12])

    # -- oracles ----------------------------------------------------------

    def fail(self, oracle, message, mechanism=None):
        if mechanism is not None and mechanism in self.known:
            self.known_hits[mechanism] += 1
            return
        raise Violation(oracle, message, mechanism)

    def true(self, oracle, cond, message='', mechanism=None):
        self.oracles[oracle] += 1
        if not cond:
            self.fail(oracle, message() if callable(message) else message,
                      mechanism)

    def close(self, oracle, got, want, rtol=1e-7, atol=0., what='',
              mechanism=None):
        """Element-wise |got - want| <= atol + rtol |want|; NaN and infinities
        must coincide. atol may be an array."""
        self.oracles[oracle] += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return self.fail(oracle, f'{what}: shape {got.shape} instead of '
                             f'{want.shape}', mechanism)
        if got.dtype.kind not in 'biufc':
            return self.fail(oracle, f'{what}: not numeric: {got!r}',
                             mechanism)
        self.values += got.size
        if got.dtype.kind != 'c' and want.dtype.kind != 'c':
            got, want = got.astype(float), want.astype(float)
        with np.errstate(all='ignore'):
            tol = atol + rtol * np.abs(want)
            err = np.abs(got - want)
            bad = ~(err <= tol)
            fin = np.isfinite(got) & np.isfinite(want)
            same = (got == want) | (np.isnan(got) & np.isnan(want))
            bad = np.where(fin, bad, ~same)
            ratio = np.where(fin & (tol > 0), err / np.where(tol > 0, tol, 1),
                             0)
        if got.size:
            self.worst[oracle] = max(self.worst.get(oracle, 0.),
                                     float(np.max(ratio)))
        if bad.any():
            idx = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(oracle, f'{what}: {int(bad.sum())}/{bad.size} values '
                      f'differ, first at {idx}: got {got[idx]!r}, expected '
                      f'{want[idx]!r}', mechanism)

    def same(self, oracle, got, want, rtol=1e-9, atol=1e-12, what='',
             scale=False):
        """Deep comparison of two results."""
        a, b = list(flatten(got)), list(flatten(want))
        if [p for p, _ in a] != [p for p, _ in b]:
            self.oracles[oracle] += 1
            d = set(p for p, _ in a) ^ set(p for p, _ in b)
            return self.fail(oracle, f'{what}: structures differ: '
                             f'{sorted(d)[:6]}')
        for (p, x), (_, y) in zip(a, b):
            if is_num(x) and is_num(y):
                self.close(oracle, x, y, rtol, atol, what + p)
            elif isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                self.true(oracle, np.array_equal(x, y),
                          f'{what}{p}: {x!r} != {y!r}')
            else:
                self.true(oracle, type(x) is type(y) and x == y,
                          f'{what}{p}: {x!r} != {y!r}')

    def dominated(self, oracle, small, big, rtol=1e-9, atol=0., what=''):
        """small <= big wherever both are numbers."""
        self.oracles[oracle] += 1
        small, big = np.broadcast_arrays(np.asarray(small, float),
                                         np.asarray(big, float))
        self.values += small.size
        with np.errstate(all='ignore'):
            bad = small > big + atol + rtol * np.abs(big)
        if bad.any():
            idx = tuple(int(v) for v in np.argwhere(bad)[0])
            self.fail(oracle, f'{what}: {small[idx]!r} > {big[idx]!r} at '
                      f'{idx}')


# --------------------------------------------------------------------------
# known findings

def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                _, p, mech, text = line.split(None, 3)
                if p == f'property={prop}':
                    out[mech.split('=', 1)[1]] = text
    return out


# --------------------------------------------------------------------------
# running

def rng_of(seed, prop, i):
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), i])


def run_case(mod, seed, tier, i, known):
    rng = rng_of(seed, mod.ID, i)
    np.random.seed(int(rng.integers(2**32)))
    ctx = Ctx(mod.ID, tier, i, known)
    problem = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                mod.case(ctx, rng, i)
    except Violation as e:
        problem = dict(oracle=e.oracle, message=e.message,
                       mechanism=e.mechanism, trace='')
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        # valid input, documented result: an exception from the code, or a
        # result without the documented content, refutes the property
        problem = dict(oracle='no-crash', mechanism=None,
                       message=f'{type(e).__name__}: {e}'[:500],
                       trace=traceback.format_exc()[-3000:])
    finally:
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')
    return ctx, problem


def _shard(mod, seed, tier, indices, deadline, known):
    out = dict(cases=0, events=0, values=0, oracles=collections.Counter(),
               ops=collections.Counter(), worst={}, states=set(), sigs=set(),
               nontrivial=set(), samples=[], problems=[], truncated=0,
               known=collections.Counter())
    for i in indices:
        if time.time() > deadline:
            out['truncated'] += 1
            continue
        ctx, problem = run_case(mod, seed, tier, i, known)
        out['cases'] += 1
        out['events'] += len(ctx.events)
        out['values'] += ctx.values
        out['oracles'] += ctx.oracles
        out['ops'].update(e['op'] for e in ctx.events if e['kind'] == 'call')
        for k, v in ctx.worst.items():
            out['worst'][k] = max(out['worst'].get(k, 0), v)
        out['states'] |= ctx.states
        out['known'] += ctx.known_hits
        sig = hashlib.sha1(repr((jsonable(ctx.params), [
            (e['op'], e.get('args'), e.get('kwargs'), e.get('exc'))
            for e in ctx.events])).encode()).hexdigest()[:16]
        out['sigs'].add(sig)
        if sum(ctx.oracles.values()) and ctx.values:
            out['nontrivial'].add(sig)
        if len(out['samples']) < 1:
            out['samples'].append(dict(
                case=i, params=jsonable(ctx.params),
                oracles=dict(ctx.oracles), values_compared=ctx.values,
                events=[jsonable(e) for e in ctx.events[:4]]))
        if problem is not None:
            problem.update(case=i, params=jsonable(ctx.params),
                           events=[jsonable(e) for e in ctx.events[-40:]])
            out['problems'].append(problem)
            if len(out['problems']) >= 3:
                break
    return out


def _worker(mod, seed, tier, indices, deadline, known, conn):
    try:
        res = _shard(mod, seed, tier, indices, deadline, known)
    except BaseException:
        res = dict(error=traceback.format_exc())
    conn.send(res)
    conn.close()


def run(mod, tier, seed):
    t0 = time.time()
    known = known_findings(mod.ID)
    n = mod.THOROUGH if tier == 'thorough' else mod.QUICK
    procs = getattr(mod, 'PROCS', 8)
    procs = max(1, min(procs, os.cpu_count() or 1, n))
    budget = 3000 if tier == 'thorough' else 420
    deadline = t0 + budget
    if hasattr(mod, 'prepare'):
        mod.prepare()
    fork = mp.get_context('fork')
    jobs = []
    for k in range(procs):
        r, w = fork.Pipe(False)
        p = fork.Process(target=_worker, args=(
            mod, seed, tier, list(range(k, n, procs)), deadline, known, w))
        p.start()
        w.close()
        jobs.append((p, r))
    results = []
    for p, r in jobs:
        try:
            res = r.recv() if r.poll(budget + 300) else dict(error='watchdog')
        except EOFError:
            res = dict(error='worker died')
        results.append(res)
        if p.is_alive() and res.get('error') == 'watchdog':
            p.terminate()
        p.join(30)
    errors = [r['error'] for r in results if 'error' in r]
    results = [r for r in results if 'error' not in r]

    tot = dict(cases=0, events=0, values=0, truncated=0)
    oracles, ops, knowns = (collections.Counter() for _ in range(3))
    worst, states, sigs, nontrivial = {}, set(), set(), set()
    samples, problems = [], []
    for r in results:
        for k in tot:
            tot[k] += r[k]
        oracles += r['oracles']
        ops += r['ops']
        knowns += r['known']
        states |= r['states']
        sigs |= r['sigs']
        nontrivial |= r['nontrivial']
        samples += r['samples']
        problems += r['problems']
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0), v)
    problems.sort(key=lambda p: p['case'])

    evidence = dict(
        property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL,
        coverage=dict(
            evaluations=tot['cases'],
            distinct_nontrivial=len(nontrivial),
            rule=mod.RULE,
            samples=samples[:4],
            explanation='Executions of the real code observed by the monitors '
                        'of this property; held on these executions.',
            recorded_events=tot['events'],
            values_compared=tot['values'],
            oracle_evaluations=dict(sorted(oracles.items())),
            operations_observed=dict(sorted(ops.items())),
            distinct_states_or_interleavings=len(states),
            worst_error_over_tolerance={k: round(v, 6) for k, v in
                                        sorted(worst.items())},
            known_findings_hit=dict(knowns),
            cases_not_run=tot['truncated'],
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
            'numpy, scipy, pywt and scikit-learn of /opt/venv behave as '
            'documented'],
        wall_s=round(time.time() - t0, 3),
        violations=len(problems))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{mod.ID}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for mech, hits in sorted(knowns.items()):
        print(f'KNOWN-FINDING: property={mod.ID} {mech}: {known[mech]} '
              f'({hits} executions)')

    status = 0
    if problems:
        status = 1
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for p in problems[:3]:
            path = os.path.join(VERIF, 'replays',
                                f'{mod.ID}-{tier}-{seed}-{p["case"]}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=mod.ID, tier=tier, seed=seed,
                               how=f'./check {mod.ID} --replay {path}', **p),
                          f, indent=1)
            print(f'VIOLATION property={mod.ID} replay={path}')
            print(f'  case {p["case"]} oracle {p["oracle"]}: '
                  f'{p["message"][:400]}')
            print(f'  params {json.dumps(p["params"])[:400]}')
            if p['trace']:
                print('  ' + p['trace'][-700:].replace('\n', '\n  '))
    else:
        missing = [o for o in mod.REQUIRED if not oracles[o]]
        if errors:
            print('INCONCLUSIVE: ' + errors[0][-2000:])
            status = 2
        elif missing:
            print(f'INCONCLUSIVE: oracles never evaluated: {missing}')
            status = 2
        elif tot['cases'] < max(1, n // 4):
            print(f'INCONCLUSIVE: only {tot["cases"]} of {n} cases ran')
            status = 2
    verdict = {0: 'held on', 1: 'VIOLATED on', 2: 'inconclusive after'}[status]
    print(f'{mod.ID} {tier} seed={seed}: {verdict} {tot["cases"]} executions, '
          f'{tot["events"]} events, {sum(oracles.values())} oracle '
          f'evaluations, {tot["values"]} values compared, '
          f'{time.time() - t0:.1f}s')
    return status
