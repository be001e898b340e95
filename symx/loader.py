"""Loads the real sources of the package under analysis, from /repo, with the
libraries they import replaced by the given module table."""
import builtins
import hashlib
import os
import types

REPO = os.environ.get("PYRICHLET_REPO", "/repo")
PKG = "pyrichlet"

_CODE = {}
FILES = {}


def _compile(path):
    c = _CODE.get(path)
    if c is None:
        with open(path, "rb") as f:
            src = f.read()
        FILES[os.path.relpath(path, REPO)] = hashlib.sha256(
            src).hexdigest()[:16]
        c = compile(src, path, "exec", dont_inherit=True)
        _CODE[path] = c
    return c


class Loader:
    def __init__(self, modules, builtin_ns=None, trace=None):
        self.table = modules
        self.mods = {}
        b = dict(builtin_ns or vars(builtins))
        b["__import__"] = self._import
        self.builtins = b

    # -- package modules ---------------------------------------------------
    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.load(parent)
            m = self.mods.get(name)
            if m is not None:
                return m
        base = os.path.join(REPO, *name.split("."))
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__dict__["__builtins__"] = self.builtins
        try:
            if name == PKG + "._version":
                m.get_versions = lambda: {"version": "0"}
            elif os.path.isdir(base):
                m.__path__ = [base]
                m.__package__ = name
                init = os.path.join(base, "__init__.py")
                if os.path.exists(init):
                    m.__file__ = init
                    exec(_compile(init), m.__dict__)
            elif os.path.exists(base + ".py"):
                m.__package__ = parent
                m.__file__ = base + ".py"
                exec(_compile(base + ".py"), m.__dict__)
            else:
                raise ModuleNotFoundError(f"No module named {name!r}")
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:len(parts) - level + 1]
            full = ".".join(parts + ([name] if name else []))
        else:
            full = name
        if full == PKG or full.startswith(PKG + "."):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    names = [f]
                    if f == "*":
                        continue
                    for n in names:
                        if not hasattr(m, n):
                            try:
                                self.load(full + "." + n)
                            except ModuleNotFoundError:
                                pass
                return m
            return self.mods[full.split(".")[0]] if not level else m
        m = self.table.get(full)
        if m is not None:
            if fromlist:
                return m
            top = full.split(".")[0]
            return self.table.get(top, m)
        return builtins.__import__(name, globals, locals, fromlist, level)
