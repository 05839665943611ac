"""Analyses are pure: inputs untouched, deterministic, no process-wide
state."""
import gc
import locale
import logging
import os
import random
import sys
import threading
import warnings

import numpy as np

from .. import api, core, gen, ops  # noqa: F401

ID = 'C14'
LEVEL = 'exploration'
QUICK, THOROUGH = 2500, 15000
REQUIRED = ['inputs', 'repeatable', 'process-state', 'no-aliasing',
            'global-rng', 'history-independent', 'failing-operation']
RULE = ('random public operations on fresh inputs, repeated, interleaved '
        'with other operations, with the inputs overwritten afterwards; '
        'non-trivial: results digested bit by bit before and after')


def arrays(obj):
    for _, leaf in core.flatten(obj):
        if isinstance(leaf, np.ndarray):
            yield leaf


def state():
    import matplotlib
    from matplotlib import pyplot
    return dict(
        pyrng=hash(random.getstate()), locale=locale.setlocale(locale.LC_ALL),
        recursion=sys.getrecursionlimit(), gc=gc.isenabled(),
        threads=threading.active_count(), errcall=repr(np.geterrcall()),
        logging=repr((logging.root.level, logging.root.handlers,
                      logging.root.manager.disable)),
        hooks=repr((sys.excepthook, sys.stdout, sys.stderr,
                    warnings.showwarning)),
        figures=pyplot.get_fignums(),
        rng=core.digest(list(np.random.get_state())),
        err=dict(np.geterr()), cwd=os.getcwd(),
        env=core.digest(sorted(os.environ.items())),
        filters=[repr(f) for f in warnings.filters],
        rc=core.digest(repr(dict(matplotlib.rcParams))),
        printopt=core.digest(repr(np.get_printoptions())))


def spoilt(rng, args, kw):
    """The same call with an argument that makes many operations fail."""
    args, kw = list(args), dict(kw)
    arr = [k for k, a in enumerate(args) if isinstance(a, np.ndarray)]
    kind = int(rng.integers(3))
    if kind == 0 and arr:
        k = gen.pick(rng, arr)
        args[k] = np.full_like(np.asarray(args[k], float), np.nan) \
            if rng.random() < .5 else args[k][:2]
    elif kind == 1 and args:
        args[int(rng.integers(len(args)))] = None
    elif 'j1' in kw:
        kw['j1'] = 40
    else:
        kw['no_such_option'] = 1
    return args, kw


def observed(ctx, rng, name, fn, args, kw):
    """Runs the operation, and a failing one, watching the process."""
    # recorded by hand: the recorder must not touch the warning filters
    s0 = state()
    ev = ctx._event(kind='call', op=name, args=[core.describe(a, 60)
                                                for a in args])
    out = fn(*args, **kw)
    s1 = state()
    ctx._event(kind='return', op=name, of=ev['seq'])
    a, k = spoilt(rng, args, kw)
    ev = ctx._event(kind='call', op=name, args=[core.describe(v, 60)
                                                for v in a])
    try:
        fn(*a, **k)
    except Exception as e:
        ctx._event(kind='raise', op=name, of=ev['seq'],
                   exc=f'{type(e).__name__}: {e}'[:80])
        ctx.oracles['failing-operation'] += 1
    s2 = state()
    for what, s in (('', s1), ('failing ', s2)):
        for k in s0:
            ctx.true('global-rng' if k == 'rng' else 'process-state',
                     s0[k] == s[k],
                     f'{what}{name} changed {k}: {s0[k]} -> {s[k]}')
    return out


def case(ctx, rng, i):
    name, fn, args, kw = ops.make(rng)
    ctx.params.update(op=name, kwargs={k: v for k, v in kw.items()
                                       if not isinstance(v, np.ndarray)})
    inputs = (args, kw)
    before = core.digest(inputs)
    # a state of the process which is nobody's default
    with warnings.catch_warnings(), np.errstate(**{
            k: gen.pick(rng, ['warn', 'ignore'])
            for k in ('divide', 'over', 'under', 'invalid')}):
        warnings.filterwarnings('ignore', message=f'rv marker {i}')
        out = observed(ctx, rng, name, fn, args, kw)
    ctx.true('inputs', core.digest(inputs) == before,
             f'{name} modified its inputs')
    d0 = core.digest(out)
    leaves = list(arrays(out))
    ctx.values += sum(a.size for a in leaves) + 1

    # the result of later operations, on the same or other inputs, and what
    # the caller does with the result's arrays do not matter
    for _ in range(int(rng.integers(1, 3))):
        n2, f2, a2, k2 = ops.make(rng)
        ctx.call(f2, *a2, **k2)
        ctx.true('no-aliasing', core.digest(out) == d0,
                 f'{n2} modified an earlier result of {name}')
    again = ctx.call(fn, *args, **kw)
    ctx.true('repeatable', core.digest(again) == d0,
             f'{name} repeated gives another result')
    ctx.true('history-independent', core.digest(inputs) == before,
             'inputs modified by the repetition')
    # nothing is shared with the caller: overwriting the results changes no
    # input and no later result, and conversely
    for a in leaves:
        if a.flags.writeable:
            a[...] = 7
    ctx.true('no-aliasing', core.digest(inputs) == before,
             f'{name}: overwriting the result changes the inputs')
    third = ctx.call(fn, *args, **kw)
    ctx.true('no-aliasing', core.digest(third) == d0,
             f'{name}: overwriting a result changes the next one')
    for a in arrays(list(args) + list(kw.values())):
        if a.flags.writeable:
            a[...] = 3
    ctx.true('no-aliasing', core.digest(third) == d0,
             f'{name}: the result changes with its inputs')

    # simulators: a function of the seed, which they do not set
    if i % 5 == 0:
        sname = gen.pick(rng, list(ops.SIMULATORS))
        f, a, k = ops.SIMULATORS[sname](rng)
        ctx.params['simulator'] = sname
        np.random.seed(i + 1)
        x = ctx.call(f, *a, **k)
        y = ctx.call(f, *a, **k)
        np.random.seed(i + 1)
        z = ctx.call(f, *a, **k)
        ctx.true('simulator-seed', core.digest(x) == core.digest(z),
                 f'{sname}: same seed, other result')
        ctx.true('simulator-advances', core.digest(x) != core.digest(y),
                 f'{sname}: the random state does not advance')
    ctx.state(name)
