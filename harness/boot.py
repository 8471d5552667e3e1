"""
Bootstrap: makes Hypothesis (installed only in the tooling venv) importable from
the interpreter that has the repository's dependencies, and puts /repo first.
"""
import importlib.machinery
import os
import sys
import zipfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = '/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2]
NAMES = ('hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
         '_hypothesis_pytestplugin', '_hypothesis_engine', 'sortedcontainers', 'attr', 'attrs')


class _Finder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0].startswith(NAMES) and path is None:
            return importlib.machinery.PathFinder.find_spec(name, [self.path])
        return None


def _wheel_dir():
    out = os.path.join(scratch(), 'wheels')
    if not os.path.isdir(out):
        os.makedirs(out)
        src = '/opt/veriftools/wheels'
        for f in os.listdir(src):
            if f.startswith(('hypothesis-', 'sortedcontainers-', 'attrs-')) and f.endswith('.whl'):
                zipfile.ZipFile(os.path.join(src, f)).extractall(out)
    return out


_scratch = None


def scratch():
    """a private scratch folder of this process, removed when it ends"""
    global _scratch
    if _scratch is None:
        import atexit
        import shutil
        import tempfile
        _scratch = tempfile.mkdtemp(prefix='lomverif')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, True))
    return _scratch


def setup():
    os.environ.setdefault('MPLCONFIGDIR', os.path.join(scratch(), 'mpl'))
    os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)
    os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY', os.path.join(scratch(), 'hyp'))
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.meta_path.append(_Finder(TOOLS))
        try:
            import hypothesis  # noqa
        except ImportError:
            sys.meta_path.append(_Finder(_wheel_dir()))
            for m in [m for m in sys.modules if m.split('.')[0].startswith(NAMES)]:
                del sys.modules[m]
            import hypothesis  # noqa
    sys.path.insert(0, REPO)
    import lom
    where = os.path.realpath(lom.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('lom was imported from %s, not from %s' % (where, REPO))
