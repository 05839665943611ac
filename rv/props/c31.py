"""Results as data: accessors, keyword construction, copies and pickles."""
import copy
import pickle

import numpy as np

from .. import api, core, gen, ref

ID = 'C31'
LEVEL = 'exploration'
QUICK, THOROUGH = 2000, 12000
REQUIRED = ['pickle', 'deepcopy', 'independent-copy', 'usable-copy',
            'from-dict', 'from-dict-missing', 'nj', 'nj-interv', 'container',
            'unknown-attribute', 'accessors', 'other-process']
RULE = ('random results of every kind copied, pickled, rebuilt from '
        'dictionaries and read through their accessors; non-trivial: '
        'complete contents compared')


def copies(ctx, rng, obj, what):
    proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
    p = ctx.call(pickle.loads, ctx.call(pickle.dumps, obj, proto))
    d = ctx.call(copy.deepcopy, obj)
    ctx.same('pickle', p, obj, rtol=0, atol=0, what=what)
    ctx.same('deepcopy', d, obj, rtol=0, atol=0, what=what)
    before = core.digest(obj)
    for _, leaf in core.flatten(d):
        if isinstance(leaf, np.ndarray) and leaf.dtype.kind == 'f' \
                and leaf.flags.writeable:
            leaf[...] = -77.
    ctx.true('independent-copy', core.digest(obj) == before,
             what + ': writing in a copy changed the original')
    return p


def unknown(ctx, obj, names):
    for n in names:
        try:
            v = getattr(obj, n)
        except AttributeError:
            ctx.oracles['unknown-attribute'] += 1
            continue
        if np.size(v) == 0:
            # nothing is answered for an order which does not exist
            continue
        ctx.fail('unknown-attribute', f'{type(obj).__name__}.{n} is {v!r}')


def container(ctx, rng):
    f = gen.pick(rng, ['wavelet coef', 'wavelet leader', 'wavelet p-leader'])
    g = gen.gamint(rng)
    m = ctx.call(api.MultiResolutionQuantity, f, g)
    nrep, J = int(rng.integers(1, 4)), int(rng.integers(1, 8))
    put = {}
    ctx.true('container', not hasattr(m, 'nrep') and len(m.get_nj()) == 0
             and not m.values and not hasattr(m, 'nope'),
             'a quantity without scales has realisations or counts')
    other = ctx.call(api.MultiResolutionQuantity, f, g)
    ctx.call(other.add_values, np.ones((3, nrep + 1)), 1)
    ctx.true('container', not m.values and not m.nj and not hasattr(m, 'nrep'),
             'two quantities share their scales')
    for j in range(1, J + 1):
        v = rng.standard_normal((int(rng.integers(4, 60)), nrep))
        v[rng.random(v.shape) < .2] = np.nan
        put[j] = v.copy()
        ctx.call(m.add_values, v, j)
    ctx.true('container', m.formalism == f and m.gamint == g and
             m.nrep == nrep and list(m.values) == list(put),
             'container attributes')
    cnt = ref.count(put)
    for j in put:
        ctx.close('container', m.values[j], put[j], 0, 0, f'scale {j}')
        ctx.close('nj', m.nj[j], cnt[j], 0, 0, f'nj[{j}]')
    nj = ctx.call(m.get_nj)
    ctx.true('nj', len(nj) == J, 'get_nj')
    for k, j in enumerate(put):
        ctx.close('nj', nj[k], cnt[j], 0, 0, f'get_nj[{k}]')
    a = int(rng.integers(1, J + 1))
    b = int(rng.integers(a, J + 1))
    for u, v in ((a, J + int(rng.integers(1, 30))), (J + 1, J + 3)):
        try:
            n = m.get_nj_interv(u, v)
        except (KeyError, IndexError, ValueError, AssertionError):
            ctx.oracles['nj-interv'] += 1
            continue
        # one row per scale of the range, nothing being available there
        ctx.true('nj-interv', len(n) == v - u + 1 and not np.nan_to_num(
            np.asarray(n, float)[max(J + 1 - u, 0):]).any(),
            f'counts of scales {u} to {v} out of {J}: {n}')
    ctx.close('nj-interv', ctx.call(m.get_nj_interv, a, b),
              [cnt[j] for j in range(a, b + 1)], 0, 0, f'nj of {a}..{b}')
    copies(ctx, rng, m, 'quantity ')
    # other values, of another number of realisations
    more = nrep + int(rng.integers(1, 4))
    for j in range(1, J + 1):
        v = rng.standard_normal((int(rng.integers(4, 60)), more))
        v[rng.random(v.shape) < .2] = np.nan
        put[j] = v.copy()
        ctx.call(m.add_values, v, j)
    cnt = ref.count(put)
    ctx.true('container', m.nrep == more and list(m.values) == list(put),
             f'{m.nrep} realisations once replaced by {more}')
    ctx.close('nj-interv', ctx.call(m.get_nj_interv, a, b),
              [cnt[j] for j in range(a, b + 1)], 0, 0, 'replaced counts')
    unknown(ctx, m, ['nope', 'c1', 'zeta', 'value', 'n', 'nj_'])


def case(ctx, rng, i):
    if i % 5 == 0:
        container(ctx, rng)
        ctx.state(0)
        return
    m = gen.mrq(ctx, rng, nrep=1 if i % 5 == 4 else None, positive=True)
    j1, j2, w = gen.fit_range(ctx, rng, m)
    base = dict(j1=j1, j2=j2, weighted=w)
    extra = dict(unrelated=3, title='x', p_exp=np.inf)
    if i % 5 == 4:
        m2 = gen.mrq(ctx, rng, nrep=1, positive=True, like=m)
        n = int(rng.integers(1, 5))
        kw = dict(mrq1=m, mrq2=m2, **base)
        cls, par = (api.BiCumulants, dict(n_cumul=n)) if rng.random() < .5 \
            else (api.BiStructureFunction, dict(q1=[0, 1, 2], q2=[1, 2, 3]))
    else:
        n = int(rng.integers(1, 6))
        kw = dict(mrq=m, **base)
        cls, par = [
            (api.StructureFunction, dict(q=np.array([-1., 0, 2, 3]))),
            (api.Cumulants, dict(n_cumul=n)),
            (api.MultifractalSpectrum, dict(q=np.array([0., 1, 2])))][i % 3]
    kw.update(par)
    obj = ctx.call(cls, **kw)
    name = cls.__name__ + ' '
    everything = {**extra, **kw}
    keys = list(everything)
    rng.shuffle(keys)
    again = ctx.call(cls.from_dict, {k: everything[k] for k in keys})
    ctx.same('from-dict', again, obj, rtol=0, atol=0, what=name)
    gone = gen.pick(rng, list(kw))
    ctx.raises('from-dict-missing', TypeError, cls.from_dict,
               {k: v for k, v in everything.items() if k != gone})
    p = copies(ctx, rng, obj, name)
    for o in (obj, p):
        c = ref.count(m.values)
        ctx.close('nj-interv', ctx.call(o.get_nj_interv, j1, j2),
                  [c[j] for j in range(j1, j2 + 1)], 0, 0, name + 'nj')
        unknown(ctx, o, ['nope', 'c', 'C', 'cx', 'c1x', '_missing', 'M2'])
        if cls is api.Cumulants:
            unknown(ctx, o, ['c0', 'C0', 'c9', 'C8', 'c10', 'C10', 'c11',
                             'C12', 'c21', 'c01', 'C02', 'c001', 'c-1',
                             'C+1', 'c1_', 'log_cumulant', 'm2', 'n'])
            for k in range(1, n + 1):
                ctx.close('accessors', getattr(o, f'c{k}'),
                          obj.log_cumulants[k - 1:k], 0, 0, f'c{k}')
                ctx.close('accessors', getattr(o, f'C{k}'),
                          obj.values[k - 1:k], 0, 0, f'C{k}')
            if n >= 2:
                ctx.close('accessors', o.M, -obj.log_cumulants[1:2], 0, 0,
                          'M')
        elif cls is api.BiCumulants:
            unknown(ctx, o, ['c0', 'c1', 'C2', 'c99', 'C88', 'c90', 'c110',
                             'c011', 'C011', 'C100', 'c010', 'c1_1'])
            for u in range(n + 1):
                for v in range(n + 1):
                    ctx.close('accessors', getattr(o, f'c{u}{v}'),
                              obj.log_cumulants[u:u + 1, v], 0, 0, 'cmn')
                    ctx.close('accessors', getattr(o, f'C{u}{v}'),
                              obj.values[u:u + 1, v], 0, 0, 'Cmn')
            if n >= 2:
                a, b = (ctx.call(t.compute_legendre, (0, 1), 5)
                        for t in (obj, p))
                ctx.close('usable-copy', b[1], a[1], 1e-12, 0, 'legendre')
        elif cls is api.StructureFunction:
            ctx.close('accessors', ctx.call(o.get_intercept),
                      obj.intercept[2], 0, 0, 'intercept at q = 2')
    if i % 5 == 1:
        # a whole analysis, through a pickle as sent to another process
        x, par = gen.setup(ctx, rng, hi=500)
        full = ctx.call(api.mf_analysis_full, x, q=[1, 2], **par)
        copies(ctx, rng, full, 'analysis ')
        wt = ctx.call(api.wavelet_analysis, x, **par)
        q = copies(ctx, rng, wt, 'transform ')
        redo = ctx.call(api.mf_analysis, q.wt_coefs, q.wt_leaders, q.j2_eff,
                        par['j1'], par['weighted'], 3, [1, 2])
        ctx.same('other-process', redo, full, what='analysis of a pickled '
                 'transform ')
    ctx.state(cls.__name__, n if 'n_cumul' in par else 0)
