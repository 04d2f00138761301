"""Makes `import deodr` load the python files of the working tree and the extension built from it by the checks."""
import importlib.machinery
import importlib.util
import os
import sys

from .paths import HYPOTHESIS_SITE, REPO

EXT = "deodr.differentiable_renderer_cython"


class _ExtFinder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, fullname, path=None, target=None):
        if fullname != EXT:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, self.path)
        return importlib.util.spec_from_file_location(fullname, self.path, loader=loader)


def boot(ext_path):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _ExtFinder(ext_path))
    sys.path.insert(0, REPO)
    # hypothesis only comes from the tools environment : numpy, torch... are those the repository runs with
    sys.path.append(HYPOTHESIS_SITE)
    import numpy

    numpy.seterr(all="ignore")
    import warnings

    warnings.simplefilter("ignore")
    import deodr
    import deodr.differentiable_renderer_cython as ext

    assert os.path.realpath(deodr.__file__).startswith(os.path.realpath(REPO) + os.sep), deodr.__file__
    assert ext.__file__ == ext_path, (ext.__file__, ext_path)
