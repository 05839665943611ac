"""Concurrent analyses do not interfere."""
import os
import random
import sys
import threading
import time
import warnings

import numpy as np

from .. import core, gen, ops

ID = 'C15'
LEVEL = 'exploration'
QUICK, THOROUGH = 120, 900
REQUIRED = ['isolation', 'filters', 'errstate', 'inputs', 'overlap']
RULE = ('4 to 8 threads, each running random operations (some on shared '
        'inputs), with random delays injected at executed lines of the '
        'package and a tiny switch interval; non-trivial: results of '
        'overlapping executions compared bit by bit with sequential ones. '
        'distinct_states_or_interleavings counts distinct observed orders of '
        'thread switches at package lines')
ASSUMPTIONS = ['threads do not share the global random generator nor one '
               'Signal object',
               'scikit-learn alters the warning filters when used from several '
               'threads: not held against the package']

PKG = os.path.join(core.REPO, 'pymultifracs') + os.sep


class Monitor:
    """Observes the lines executed by each thread, injects delays."""

    def __init__(self, seed, rate):
        self.rand = random.Random(seed)
        self.rate = rate
        self.last = None
        self.switches = []
        self.lines = 0
        self.delays = 0

    def line(self, code, lineno):
        if not code.co_filename.startswith(PKG):
            return sys.monitoring.DISABLE
        t = threading.get_ident()
        self.lines += 1
        if t != self.last:
            self.last = t
            self.switches.append((t, code.co_name, lineno))
        r = self.rand.random()
        if r < self.rate:
            self.delays += 1
            time.sleep(0 if r < self.rate / 2 else 2e-4)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.DEBUGGER_ID, 'rv')
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, self.line)
        m.set_events(m.DEBUGGER_ID, m.events.LINE)
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.DEBUGGER_ID, 0)
        m.register_callback(m.DEBUGGER_ID, m.events.LINE, None)
        m.free_tool_id(m.DEBUGGER_ID)
        sys.setswitchinterval(self.old)


def case(ctx, rng, i):
    nt = int(rng.integers(4, 9))
    ctx.params.update(threads=nt)
    kinds = None
    if i % 4 == 1:
        kinds = ['wavelet', 'full']
    elif i % 4 == 2:
        kinds = [gen.pick(rng, ops.KINDS)]
    elif rng.random() < .7:
        kinds = [k for k in ops.KINDS if k not in ('fractal', 'beta')]
    pool = [ops.make(rng, kinds, hi=260) for _ in range(6)]
    base = [core.digest(fn(*a, **k)) for _, fn, a, k in pool]
    ins = [core.digest((a, k)) for _, _, a, k in pool]
    plans = [[int(v) for v in rng.integers(len(pool), size=4)]
             for _ in range(nt)]
    if i % 3 == 0:
        plans = [plans[0]] * nt              # everybody on the same inputs
    ctx.params['plan'] = [[pool[v][0] for v in p] for p in plans[:2]]
    start = threading.Barrier(nt)
    out, errors = {}, []

    def work(t):
        try:
            start.wait(30)
            # the error state belongs to the thread
            with np.errstate(**own[t]):
                for s, v in enumerate(plans[t]):
                    _, fn, a, k = pool[v]
                    ctx._event(kind='call', op=pool[v][0], thread=t)
                    out[t, s] = core.digest(fn(*a, **k))
                    ctx._event(kind='return', op=pool[v][0], thread=t)
                    if dict(np.geterr()) != own[t]:
                        errors.append(f'thread {t}: {pool[v][0]} changed the '
                                      f'error state to {np.geterr()}')
        except Exception as e:
            errors.append(f'thread {t}: {type(e).__name__}: {e}')

    own = [{k: gen.pick(rng, ['warn', 'ignore'])
            for k in ('divide', 'over', 'under', 'invalid')}
           for _ in range(nt)]
    warnings.filterwarnings('ignore', message=f'rv marker {i}')
    filters = list(warnings.filters)
    err = dict(np.geterr())
    with Monitor(int(rng.integers(2**31)), float(gen.pick(
            rng, [0., .002, .01, .05]))) as mon:
        threads = [threading.Thread(target=work, args=(t,))
                   for t in range(nt)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
        hung = any(t.is_alive() for t in threads)
    ctx.true('progress', not hung, 'a thread did not finish')
    ctx.true('isolation', not errors, '; '.join(errors)[:400])
    for (t, s), d in sorted(out.items()):
        v = plans[t][s]
        ctx.values += 1
        ctx.true('isolation', d == base[v], f'thread {t} got another result '
                 f'for {pool[v][0]} than the sequential run')
    # scikit-learn itself swaps the filters, without regard to threads
    used = {pool[v][0] for p in plans for v in p}
    ctx.true('filters', used & {'fractal', 'beta'} or
             list(warnings.filters) == filters,
             f'warning filters of the process changed: '
             f'{len(filters)} -> {len(warnings.filters)}: '
             f'{[f for f in warnings.filters if f not in filters][:2]}')
    ctx.true('errstate', dict(np.geterr()) == err, 'numpy error state')
    ctx.true('inputs', [core.digest((a, k)) for _, _, a, k in pool] == ins,
             'shared inputs modified')
    if len(mon.switches) > nt:
        ctx.oracles['overlap'] += 1
    ids = {}
    ctx.state([(ids.setdefault(t, len(ids)), n, ln)
               for t, n, ln in mon.switches])
    ctx.params.update(switches=len(mon.switches), lines=mon.lines,
                      delays=mon.delays)
