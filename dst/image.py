"""Loading the code under test.

Sources are read from /repo at check start and compiled once, in memory. A node
of a simulated cluster gets its own image: its own instances of all modules of
anthunder, mysockpool and mytracer, as a separate process would have."""
import builtins
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import kernel as _k

REPO = os.environ.get("DST_REPO", "/repo")
TOPS = ("anthunder", "mysockpool", "mytracer")
TOOL = 4

SOURCES = {}   # module name -> (path, is_pkg, code)


def compile_all():
    for top in TOPS:
        base = os.path.join(REPO, top)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, REPO)[:-3].split(os.sep)
                pkg = rel[-1] == "__init__"
                if pkg:
                    rel = rel[:-1]
                with open(path, "rb") as fh:
                    src = fh.read()
                SOURCES[".".join(rel)] = (path, pkg, compile(src, path, "exec", dont_inherit=True))


def _nested(code, out):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out.append(c)
            _nested(c, out)


def code_objects(prefixes=TOPS):
    out = []
    for name, (_, _, code) in SOURCES.items():
        if any(name == p or name.startswith(p + ".") for p in prefixes):
            _nested(code, out)
    return out


def monitor_lines():
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "dst")
    mon.register_callback(TOOL, mon.events.LINE, _k.on_line)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _k.on_line)
    for c in code_objects():
        mon.set_local_events(TOOL, c, mon.events.LINE)


def monitor_instructions(prefixes):
    """preempt between any two bytecode instructions of these modules"""
    mon = sys.monitoring
    for c in code_objects(prefixes):
        mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)


class _Loader:
    def __init__(self, image, name):
        self.image = image
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path, pkg, code = SOURCES[self.name]
        module.__dict__["__builtins__"] = self.image.builtins
        exec(code, module.__dict__)


class _Finder:
    def __init__(self):
        self.image = None

    def find_spec(self, name, path=None, target=None):
        if self.image is None or name not in SOURCES:
            return None
        p, pkg, _ = SOURCES[name]
        spec = importlib.machinery.ModuleSpec(name, _Loader(self.image, name), origin=p, is_package=pkg)
        spec.has_location = True
        if pkg:
            spec.submodule_search_locations = [os.path.dirname(p)]
        return spec


_finder = _Finder()
_real_import = builtins.__import__


def install():
    sys.meta_path.insert(0, _finder)


class Image:
    """one process's copy of the code under test"""

    def __init__(self, name):
        self.name = name
        self.modules = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins["__import__"] = self._import
        self._depth = 0

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name.split(".", 1)[0] not in TOPS:
            return _real_import(name, globals, locals, fromlist, level)
        with self:
            return _real_import(name, globals, locals, fromlist, level)

    def __enter__(self):
        k = _k.K
        if k is not None:
            k.depth += 1
        self._depth += 1
        if self._depth == 1:
            self._outer = _finder.image, {n: m for n, m in sys.modules.items()
                                          if n.split(".", 1)[0] in TOPS}
            for n in self._outer[1]:
                del sys.modules[n]
            sys.modules.update(self.modules)
            _finder.image = self
        return self

    def __exit__(self, *a):
        self._depth -= 1
        if self._depth == 0:
            _finder.image, outer = self._outer
            for n in [n for n in sys.modules if n.split(".", 1)[0] in TOPS]:
                self.modules[n] = sys.modules.pop(n)
            sys.modules.update(outer)
        k = _k.K
        if k is not None:
            k.depth -= 1

    def load(self, name):
        m = self.modules.get(name)
        if m is None:
            with self:
                importlib.import_module(name)
                m = sys.modules[name]
        return m

    __getitem__ = load
