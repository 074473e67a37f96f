"""What is run for each property."""
COMMON_ASSUMPTIONS = [
    "clang 18 -O1 bitcode of the sources stands for the compiled library (gcc builds the shipped one); counterexamples are replayed with gcc",
    "bodies of libstdc++ functions that live in the shared library (exception classes, red-black tree insertion, hashing, float text conversion) are replaced by the models in engine/rt.cpp and engine/interp.h",
    "heap allocation succeeds unless the harness injects a failure; distinct objects are at distinct addresses",
]
CHECKS = {}
def prop(pid, what, bounds, runs, **kw):
    CHECKS[pid] = dict(what=what, bounds=bounds, runs=runs, **kw)
def R(entry, *params, **kw):
    return dict(entry=entry, params=list(params), **kw)

import importlib, glob, os
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "C*.py"))):
    with open(_f) as _h:
        exec(compile(_h.read(), _f, "exec"))
