"""Process environment of the checks: where the code under test is, and a quiet, contained import of it."""
import os, sys, logging, warnings

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_path():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ['BROWSER'] = 'true'
    sys.dont_write_bytecode = True
    if sys.path[:1] != [REPO]:
        sys.path.insert(0, REPO)
    if HYP not in sys.path:
        sys.path.append(HYP)          # at the end: only what the venv lacks (hypothesis) comes from there
    warnings.simplefilter('ignore')


def import_flixopt():
    """Imports flixOpt from REPO (cwd must be a scratch directory: the import writes a log file)."""
    setup_path()
    import flixOpt
    if os.path.dirname(os.path.dirname(os.path.abspath(flixOpt.__file__))) != os.path.abspath(REPO):
        raise RuntimeError('flixOpt imported from ' + flixOpt.__file__)
    quiet()
    return flixOpt


def quiet():
    lg = logging.getLogger('flixOpt')
    lg.setLevel(100)
    logging.getLogger('pyomo').setLevel(100)
    logging.getLogger('pyomo.core').setLevel(100)
