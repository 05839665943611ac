"""Interrupted operations leave nothing behind."""
import os
import sys
import threading
import warnings

import numpy as np

from .. import core, gen, ops
from . import c14, c27

ID = 'C33'
LEVEL = 'exploration'
QUICK, THOROUGH = 1200, 9000
REQUIRED = ['interrupted', 'process-state', 'inputs', 'repeated',
            'other-operation', 'earlier-result', 'signal-interrupted',
            'signal-stored', 'simulator']
RULE = ('random operations stopped by an exception raised at a randomly '
        'chosen executed line of the package, then repeated; non-trivial: '
        'results after the fault compared bit by bit with the ones before. '
        'distinct_states_or_interleavings counts distinct points of '
        'interruption')
ASSUMPTIONS = ['the fault strikes inside a computation, not between the two '
               'statements which store a result in a Signal',
               'an interrupted plot may leave its figure open']

PKG = os.path.join(core.REPO, 'pymultifracs') + os.sep
FAULTS = [KeyboardInterrupt, MemoryError, RuntimeError, FloatingPointError]


class Fault:
    """Counts the lines the package executes in this thread, and raises at
    the chosen one."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.seen = []
        self.where = None
        self.thread = threading.get_ident()

    def line(self, code, lineno):
        f = code.co_filename
        if not f.startswith(PKG) or f.endswith(os.sep + 'signal.py'):
            return sys.monitoring.DISABLE
        if threading.get_ident() != self.thread or self.where:
            return
        self.seen.append((code.co_qualname, lineno))
        if len(self.seen) == self.at:
            self.where = self.seen[-1]
            raise self.exc('injected')

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(m.PROFILER_ID, 'rv')
        m.restart_events()
        m.register_callback(m.PROFILER_ID, m.events.LINE, self.line)
        m.set_events(m.PROFILER_ID, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(m.PROFILER_ID, 0)
        m.register_callback(m.PROFILER_ID, m.events.LINE, None)
        m.free_tool_id(m.PROFILER_ID)


def point(rng, lines):
    """Position of the fault: any executed line, or any visit of any
    distinct line."""
    if rng.random() < .5:
        return int(rng.integers(1, len(lines) + 1))
    where = gen.pick(rng, list(dict.fromkeys(lines)))
    return gen.pick(rng, [k for k, w in enumerate(lines, 1) if w == where])


def interrupted(ctx, name, fault, fn, args, kw):
    """Runs under the fault; True when it came out."""
    ev = ctx._event(kind='call', op=name, fault=fault.exc.__name__)
    try:
        with fault:
            out = fn(*args, **kw)
    except fault.exc as e:
        if 'injected' not in str(e):
            raise
        ctx._event(kind='raise', op=name, of=ev['seq'], at=fault.where,
                   exc=fault.exc.__name__)
        return True, None
    ctx._event(kind='return', op=name, of=ev['seq'])
    return False, out


def same_state(ctx, before, what, skip=()):
    now = c14.state()
    for k in before:
        if k not in skip:
            ctx.true('process-state', before[k] == now[k],
                     f'{what} changed {k}: {before[k]} -> {now[k]}')


def operation(ctx, rng, i):
    if i % 6 == 1:
        name = gen.pick(rng, list(ops.SIMULATORS))
        fn, args, kw = ops.SIMULATORS[name](rng)
        seed = int(rng.integers(2 ** 31))
    else:
        name, fn, args, kw = ops.make(rng)
        seed = None
    ctx.params.update(op=name)
    n2, f2, a2, k2 = ops.make(rng, hi=300)

    def run():
        if seed is not None:
            np.random.seed(seed)
        return fn(*args, **kw)

    inputs = core.digest((args, kw))
    with Fault() as count:
        first = run()
    want = core.digest(first)
    other = core.digest(f2(*a2, **k2))
    ctx.values += sum(np.size(v) for _, v in core.flatten(first))
    if not count.seen:
        return
    for _ in range(int(rng.integers(1, 4))):
        fault = Fault(point(rng, count.seen), gen.pick(rng, FAULTS))
        if seed is not None:
            np.random.seed(seed)
        # the caller handles failures in a process state of its own
        with warnings.catch_warnings(), np.errstate(**{
                k: gen.pick(rng, ['warn', 'ignore'])
                for k in ('divide', 'over', 'under', 'invalid')}):
            warnings.filterwarnings('ignore', message=f'rv marker {i}')
            before = c14.state()
            out, res = interrupted(ctx, name, fault, fn, args, kw)
            same_state(ctx, before, f'{name} stopped at {fault.where}',
                       () if seed is None else ('rng',))
        if out:
            ctx.oracles['interrupted'] += 1
            ctx.state(fault.where)
        else:
            # the fault was dealt with: the answer must be the right one
            ctx.true('handled', core.digest(res) == want,
                     f'{name} goes on after a fault at {fault.where} with '
                     'another result')
        ctx.true('inputs', core.digest((args, kw)) == inputs,
                 f'{name} stopped at {fault.where} modified its inputs')
        ctx.true('earlier-result', core.digest(first) == want,
                 f'{name} stopped at {fault.where} modified an earlier '
                 'result')
        if rng.random() < .5:
            ctx.true('other-operation', core.digest(f2(*a2, **k2)) == other,
                     f'{n2} gives another result after {name} was stopped at '
                     f'{fault.where}')
        ctx.true('repeated' if seed is None else 'simulator',
                 core.digest(run()) == want, f'{name} repeated after a fault '
                 f'at {fault.where} gives another result')


class History(c27.History):

    def stored(self, s, m):
        """As for a history without faults; what is left of a parameter set
        whose result is not there does not matter."""
        ctx = self.ctx
        for attr, par, calc in (
                ('wt_psd', 'wt_psd_param', m.calc_wpsd),
                ('welch_psd', 'welch_param', m.calc_welch),
                ('fractal', 'fractal_param', m.calc_fractal)):
            got, p = getattr(s, attr), getattr(s, par)
            if got is not None:
                ctx.same('signal-stored', got, calc(tuple(p)),
                         what=f'{attr} {p} ')
        if s.wt_transform is None:
            return
        p = s.wt_param._asdict()
        ctx.same('signal-stored', s.wt_transform, m.calc_wt(p),
                 what=f'wt_transform {p} ')
        if s.multi_fractal is not None:
            ctx.same('signal-stored', s.multi_fractal, m.calc_mf(
                p, s.mf_param.q, s.mf_param.n_cumul),
                what=f'multi_fractal {p} {s.mf_param} ')

    def resync(self):
        """The model takes over what the faults left."""
        for s, m in self.pairs:
            self.stored(s, m)
            for name, attr, par in (('wpsd', 'wt_psd', 'wt_psd_param'),
                                    ('welch', 'welch_psd', 'welch_param'),
                                    ('fractal', 'fractal', 'fractal_param')):
                setattr(m, name, c27.NONE if getattr(s, attr) is None
                        else tuple(getattr(s, par)))
            m.wt = m.mf = c27.NONE
            if s.wt_transform is not None:
                m.wt = s.wt_param._asdict()
                if s.multi_fractal is not None:
                    m.mf = (s.mf_param.q, s.mf_param.n_cumul)


def history(ctx, rng):
    h = History(ctx, rng)
    trail = []
    for _ in range(int(rng.integers(4, 14))):
        if rng.random() < .5:
            fault = Fault(int(np.exp(rng.uniform(0, np.log(400)))),
                          gen.pick(rng, FAULTS))
            before = c14.state()
            try:
                with fault:
                    op, k = h.step()
            except fault.exc as e:
                if 'injected' not in str(e):
                    raise
                op = 'fault'
                ctx.oracles['signal-interrupted'] += 1
                ctx.state(fault.where)
                same_state(ctx, before, f'a Signal stopped at {fault.where}',
                           ('figures',))
                trail.append(f'fault {fault.where}')
                ctx.params['trail'] = trail
                h.resync()
                continue
            if fault.where:
                h.resync()      # a failure was expected, and was this one
        else:
            op, k = h.step()
        trail.append(f'{k}:{op}')
        ctx.params['trail'] = trail
        for s, m in h.pairs:
            h.stored(s, m)
            ctx.true('inputs', np.array_equal(s.data, m.data),
                     'data modified')


def case(ctx, rng, i):
    if i % 4 == 3:
        history(ctx, rng)
    else:
        operation(ctx, rng, i)
