"""Make `hypothesis` importable in the interpreter that has quantify-scheduler.

The repository's venv has no hypothesis; the verification venv has one of the same Python
version.  Only the packages hypothesis needs are exposed (a path entry would shadow numpy).
"""
import glob
import importlib.machinery
import importlib.util
import os
import sys
import tempfile
import zipfile

_PREFIXES = ("hypothesis", "_hypothesis", "sortedcontainers")


class _Finder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if path is not None or not name.startswith(_PREFIXES):
            return None
        return importlib.machinery.PathFinder.find_spec(name, [self.path])


def install():
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    cands = glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages")
    for c in cands:
        if os.path.isdir(os.path.join(c, "hypothesis")):
            sys.meta_path.append(_Finder(c))
            try:
                import hypothesis  # noqa: F401

                return
            except ImportError:
                sys.meta_path.pop()
                for m in [m for m in sys.modules if m.startswith(_PREFIXES)]:
                    del sys.modules[m]
    d = tempfile.mkdtemp(prefix="vf_hyp_")
    for w in glob.glob("/opt/veriftools/wheels/hypothesis-*.whl") + glob.glob(
        "/opt/veriftools/wheels/sortedcontainers-*.whl"
    ):
        zipfile.ZipFile(w).extractall(d)
    sys.meta_path.append(_Finder(d))
    import hypothesis  # noqa: F401
