"""Symbolic checking of /repo's multisim; see ../DESIGN.md."""
import os
import sys

# z3 comes from the tool venv; appended, so that numpy & co. stay the repo's
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)


def load_repo():
    """import multisim from /repo's working tree, never from stale bytecode"""
    import numpy, pandas, scipy, scipy.optimize  # noqa: F401,E401
    import matplotlib.pyplot  # noqa: F401
    import numba  # noqa: F401
    old = sys.pycache_prefix
    sys.pycache_prefix = '/nonexistent-pycache'
    try:
        import multisim
        import multisim.precomp_funs
        import multisim.utility_functions
        import multisim._utility.meters
        import multisim._utility.stat_error_measures
    finally:
        sys.pycache_prefix = old
    repo = os.environ.get('VF_REPO', '/repo')
    assert os.path.realpath(multisim.__file__).startswith(
        os.path.realpath(repo) + os.sep), multisim.__file__
    return multisim


load_repo()
