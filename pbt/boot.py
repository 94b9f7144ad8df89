"""Locate Hypothesis (installed with the offline tooling) without letting any
other package of that tree shadow the project's own interpreter packages."""
import importlib.machinery
import os
import sys
import zipfile
import glob

_SP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_WHEELS = "/opt/veriftools/wheels"
_NAMES = {
    "hypothesis", "sortedcontainers", "attr", "attrs",
    "_hypothesis_ftz_detector", "_hypothesis_globals",
    "_hypothesis_pytestplugin",
}


class _Finder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name in _NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [self.path])
        return None


def install():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    sp = _SP
    if not os.path.isdir(os.path.join(sp, "hypothesis")):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        sp = os.path.join(here, ".deps")
        if not os.path.isdir(os.path.join(sp, "hypothesis")):
            for pat in ("hypothesis-[0-9]*.whl", "sortedcontainers-*.whl",
                        "attrs-*.whl"):
                for whl in sorted(glob.glob(os.path.join(_WHEELS, pat)))[:1]:
                    zipfile.ZipFile(whl).extractall(sp)
    sys.meta_path.append(_Finder(sp))
    import hypothesis  # noqa: F401
