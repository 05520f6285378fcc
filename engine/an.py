"""Analysis sessions: one interpreter per dump, entry points by path, symbolic arguments by type."""
import frontend, models, evalterm
from interp import *
from terms import *

_D = {}
_EXT = {}


def load(names):
    names = [n for n in names if n not in _D]
    if names:
        _D.update(frontend.dumps(names))
    return _D


def ext_interp():
    if "grib" not in _EXT:
        _EXT["grib"] = Interp(load(["grib"])["grib"], {}, models)
    return _EXT["grib"]


class An:
    def __init__(self, crate, hooks=None, dump=None):
        if dump is None:
            load(["grib", crate] if crate == "roots" else [crate])
            dump = _D[crate]
        self.d = dump
        self.it = Interp(self.d, hooks or {}, models)
        evalterm.WIDENED[0] = self.it.widened
        if crate == "roots":
            self.it.ext = ext_interp
        self.keys = {}
        for f in self.d["fns"]:
            self.keys.setdefault(f["path"], f["key"])

    def key(self, path):
        for p in (path, "vp_roots::" + path):
            if p in self.keys:
                return self.keys[p]
        raise Undecided(f"function {path} not found")

    def body(self, path):
        return self.d["bodies"][self.key(path)]

    def arg_tys(self, path):
        b = self.body(path)["b"]
        return [b["locals"][i + 1][0] for i in range(b["argc"])]

    def ret_ty(self, path):
        return self.body(path)["b"]["locals"][0][0]

    def fresh_args(self, st, path, names=None):
        return [self.it.fresh(st, t, (names or [])[i] if names and i < len(names) else f"a{i}") for i, t in enumerate(self.arg_tys(path))]

    def run(self, path, args=None, st=None):
        st = st or St()
        if args is None:
            args = self.fresh_args(st, path)
        k = self.key(path)
        self.it.stack = []
        return self.it.call_body(st, k, args, None)

    def find(self, pattern, inst=None):
        """keys of the bodies whose path matches"""
        import re
        return [k for k, b in self.d["bodies"].items() if re.search(pattern, b["path"]) and (inst is None or re.search(inst, k))]

    def run_key(self, k, args, st=None):
        self.it.stack = []
        return self.it.call_body(st or St(), k, args, None)

    def key_arg_tys(self, k):
        b = self.d["bodies"][k]["b"]
        return [b["locals"][i + 1][0] for i in range(b["argc"])]

    def fresh_key_args(self, st, k):
        return [self.it.fresh(st, t, f"a{i}") for i, t in enumerate(self.key_arg_tys(k))]
