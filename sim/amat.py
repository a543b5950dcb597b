"""Imports AMAT from the working tree of /repo, never from stale bytecode."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'AMAT' and not name.startswith('AMAT.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            init = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


if not any(isinstance(f, _Finder) for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder())

from AMAT.planet import Planet            # noqa: E402
from AMAT.vehicle import Vehicle          # noqa: E402
import AMAT.vehicle as vehicle_module     # noqa: E402
import AMAT.planet as planet_module       # noqa: E402
