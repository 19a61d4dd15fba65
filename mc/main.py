import importlib
import os
import sys
import traceback


# what the cases import; loaded before they fork, so that it is compiled once
WARM = ['tractor', 'tractor.utils', 'tractor.galaxy', 'tractor.psf', 'tractor.psfex', 'tractor.sky', 'tractor.splinesky', 'tractor.shifted',
        'tractor.ellipses', 'tractor.mixture_profiles', 'tractor.optimize', 'tractor.lsqr_optimizer', 'tractor.dense_optimizer',
        'tractor.smarter_dense_optimizer', 'tractor.constrained_optimizer', 'tractor.ceres_optimizer', 'tractor.sersic', 'tractor.motion',
        'tractor.emfit', 'tractor.sdss', 'tractor.source_extractor', 'tractor.sfd', 'tractor.cfht', 'wise.forcedphot', 'wise.allwisecat', 'scipy.interpolate', 'scipy.optimize', 'scipy.sparse.linalg', 'scipy.ndimage', 'scipy.special',
        'fitsio', 'astrometry.util.fits', 'astrometry.util.util']


def warm():
    for m in WARM:
        try:
            importlib.import_module(m)
        except Exception:
            # the cases that need it will say so
            pass


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--case' in sys.argv:
        only = sys.argv[sys.argv.index('--case') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    from mc import core
    def job(_):
        ck = core.Check(pid, tier, seed, only=only)
        warm()
        try:
            mod = importlib.import_module('mc.' + pid.lower())
            mod.run(ck)
        except Exception as e:
            # the package could not even be imported / driven: the property cannot hold
            ck.report('harness', 'driver could not run the code under test: %s: %s' % (type(e).__name__, e),
                      traceback.format_exc())
        return ck.finish()

    # in a child, so that a crash or hang of the code under test is an answer too
    code, died, at = core.fork_map(job, 1, 1)[0]
    if died is not None:
        ck = core.Check(pid, tier, seed, only=only)
        ck.traces += 1
        ck.report(at or 'harness', died, '')
        ck.truncated = True
        code = ck.finish() or 1
    sys.exit(code)


if __name__ == '__main__':
    main()
