import argparse
import importlib
import json
import os
import sys
import tempfile

import matplotlib.pyplot  # noqa: E402,F401
import numpy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import pywt  # noqa: E402,F401
import scipy.linalg  # noqa: E402,F401
import scipy.signal  # noqa: E402,F401
import seaborn  # noqa: E402,F401
import sklearn.linear_model  # noqa: E402,F401

# never execute stale bytecode of /repo: read and write caches elsewhere
sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                  f'rv-pyc-{os.getpid()}')
sys.dont_write_bytecode = True
REPO = os.environ.get('RV_REPO', '/repo')
sys.path.insert(0, REPO)


def self_test():
    """The oracles' own references agree with closed forms, and a wrong value
    is reported."""
    import numpy as np
    from . import core, ref
    ctx = core.Ctx('T', 'quick', 0)
    y = {j: np.array([2. * j + 1]) for j in range(1, 6)}
    s, b = ref.fit(y, {j: np.array([1.]) for j in y}, 1, 5, False)
    ctx.close('fit', s, [2.], 1e-12)
    ctx.close('fit', b, [1.], 1e-12)
    try:
        ctx.close('wrong', [1.], [1. + 1e-6], 1e-9)
    except core.Violation:
        pass
    else:
        raise SystemExit('the comparison oracle is blind')
    try:
        ctx.close('wrong', [np.nan], [1.], 1e-9)
    except core.Violation:
        print('self-test passed')
        return 0
    raise SystemExit('the comparison oracle is blind')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    a = ap.parse_args()
    from . import core
    if a.self_test:
        return self_test()
    try:
        import pymultifracs
        assert os.path.dirname(os.path.abspath(pymultifracs.__file__)) == \
            os.path.join(REPO, 'pymultifracs'), pymultifracs.__file__
        mod = importlib.import_module(f'rv.props.{a.prop.lower()}')
    except Exception as e:
        # nothing can be observed when the package cannot be loaded
        print(f'INCONCLUSIVE: {type(e).__name__}: {e}')
        raise
    if a.replay or a.case is not None:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            a.tier, a.seed, a.case = r['tier'], r['seed'], r['case']
        if hasattr(mod, 'prepare'):
            mod.prepare()
        ctx, problem = core.run_case(mod, a.seed, a.tier, a.case,
                                     core.known_findings(mod.ID))
        print(json.dumps(core.jsonable(ctx.params), indent=1))
        for e in ctx.events:
            print(core.jsonable(e))
        print(dict(ctx.oracles), dict(ctx.known_hits))
        if problem:
            print(problem['trace'])
            print(f'VIOLATION property={mod.ID} replay={a.replay}')
            print(problem['oracle'], problem['message'])
            return 1
        return 0
    return core.run(mod, a.tier, a.seed)


if __name__ == '__main__':
    sys.exit(main())
