"""Import the unmodified modules of /repo under CPython. C++ extensions are compiled from /repo's
current sources into a scratch directory when a check needs them, otherwise replaced by stubs that
refuse to be called, so no result depends on a stale build product."""
from __future__ import annotations
import os, sys, types, importlib, importlib.util, subprocess, sysconfig, tempfile, concurrent.futures as cf

REPO = os.environ.get("VT_REPO", "/repo")
CPP = REPO + "/src/mssm/src/cpp"
EXT_SRC = {
    "hazard": ["hazard.cpp"],
    "eigen_solvers": ["eigen_solvers.cpp"],
    "davies": ["davies.cpp"],
    "dChol": ["dchol.cpp"],
    "mcmc": ["mcmc.cpp"],
    "hsmm": None,  # every .cpp of src/cpp/hsmm
}


def sources(ext):
    s = EXT_SRC[ext]
    if s is None:
        d = CPP + "/hsmm"
        return sorted(d + "/" + f for f in os.listdir(d) if f.endswith(".cpp"))
    return [CPP + "/" + f for f in s]


class _Refuse(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            raise RuntimeError(f"{self.__name__}.{n}: extension not compiled for this check")

        return f


class CompileError(Exception):
    pass


def compile_exts(exts, out):
    """returns {ext: seconds}; raises CompileError"""
    import pybind11, time

    inc = ["-I" + pybind11.get_include(), "-I" + sysconfig.get_paths()["include"], "-I/usr/include/eigen3", "-I" + CPP, "-I" + CPP + "/hsmm"]
    jobs = []
    for e in exts:
        for s in sources(e):
            jobs.append((e, s, f"{out}/{e}_{os.path.basename(s)}.o"))

    def cc(j):
        e, s, o = j
        r = subprocess.run(["g++", "-O1", "-DNDEBUG", "-fPIC", "-std=c++17", "-fvisibility=hidden", "-w", *inc, "-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise CompileError(f"{s}: {r.stderr[-1500:]}")
        return e, o

    objs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for e, o in ex.map(cc, jobs):
            objs.setdefault(e, []).append(o)
    for e, os_ in objs.items():
        r = subprocess.run(["g++", "-shared", "-o", f"{out}/{e}.so", *os_], capture_output=True, text=True)
        if r.returncode:
            raise CompileError(r.stderr[-1500:])
        for o in os_:
            os.unlink(o)


def setup(extdir=None, exts=()):
    """prepare sys.path / sys.modules for importing the repository"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = None
    for e in EXT_SRC:
        if e in exts and extdir:
            spec = importlib.util.spec_from_file_location(e, f"{extdir}/{e}.so")
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            sys.modules[e] = m
        else:
            sys.modules[e] = _Refuse(e)
    src = REPO + "/src"
    sys.path[:] = [p for p in sys.path if os.path.realpath(p) != os.path.realpath("/repo/src")]
    sys.path.insert(0, src)
    # never trust byte code that may be older than the sources
    import importlib.machinery as mach

    class Loader(mach.SourceFileLoader):
        def get_code(self, name):
            p = self.get_filename(name)
            return compile(open(p, "rb").read(), p, "exec", dont_inherit=True)

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name != "mssm" and not name.startswith("mssm."):
                return None
            base = src + "/" + name.replace(".", "/")
            if os.path.isdir(base):
                p = base + "/__init__.py"
                if os.path.exists(p):
                    return importlib.util.spec_from_loader(name, Loader(name, p), is_package=True)
                sp = mach.ModuleSpec(name, None, is_package=True)
                sp.submodule_search_locations = [base]
                return sp
            if os.path.exists(base + ".py"):
                return importlib.util.spec_from_loader(name, Loader(name, base + ".py"))
            return None


    sys.meta_path.insert(0, Finder)


def real(name):
    if name == "models":
        return importlib.import_module("mssm.models")
    return importlib.import_module("mssm.src.python." + name)
