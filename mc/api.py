"""Loads the library under test from its current sources, as often as needed."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
PKG = os.path.join(REPO, "iso8583")
_codes = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.path
        code = _codes.get(path)
        if code is None:
            with open(path, "rb") as f:
                code = compile(f.read(), path, "exec", dont_inherit=True)
            _codes[path] = code
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "iso8583" and not fullname.startswith("iso8583."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        return None


sys.meta_path.insert(0, _Finder())


class Api:
    """One loaded instance of the package."""

    def __init__(self):
        for name in [m for m in sys.modules if m == "iso8583" or m.startswith("iso8583.")]:
            del sys.modules[name]
        import iso8583
        import iso8583.specs

        self.mod = iso8583
        self.encode = iso8583.encode
        self.decode = iso8583.decode
        self.pp = iso8583.pp
        self.EncodeError = iso8583.EncodeError
        self.DecodeError = iso8583.DecodeError
        self.default = iso8583.specs.default
        self.default_ascii = iso8583.specs.default_ascii
        self.modules = {m: sys.modules[m] for m in sys.modules if m == "iso8583" or m.startswith("iso8583.")}


def fresh():
    """A new instance with new module objects (module state is initial)."""
    return Api()


std = Api()


def in_package(filename):
    return filename.startswith(PKG)
