"""Uses the Python package, with the C library replaced by one that records its calls.

Plays scripts drawn from spec/BindingGen.tla. An event holds what the caller gave, what
the C side saw and what came back; the specification judges it.
"""
import ctypes
import gc
import os
import random
import sys

import astropy.coordinates
import numpy as np

import pycase
import stub

SRC = os.environ["PYTHONPATH"].split(":")[0]
DIR = sys.argv[1] + ".stub"
TYPES = ["int8", "int32", "float32", "float64", "complex64", "complex128"]
C0 = 299792458


def num(v):
    if isinstance(v, (bool, np.bool_)):
        return "1" if v else "0"
    if isinstance(v, (int, np.integer)):
        return "%d" % v
    return "%.17g" % float(v)


class World:
    def __init__(self, rng):
        os.environ["SKA_SDP_FUNC_LIB_DIR"] = DIR
        self.rng = rng
        self.lib = ctypes.CDLL(os.path.join(DIR, "libska_sdp_func.so"))
        self.lib.stub_log.restype = ctypes.c_char_p
        self.obj = {}
        import importlib
        self.imp = importlib.import_module
        self.sky = self.imp("ska_sdp_func.utility").SkyCoord

    # ---- values
    def array(self, ndim=None, dtype=None, shape=None):
        r = self.rng
        if shape is None:
            ndim = r.choice([0, 1, 1, 2, 2, 3, 4]) if ndim is None else ndim
            shape = [r.choice([1, 2, 3, 4, 5, 7]) for _ in range(ndim)]
            if ndim and r.random() < 0.05:
                shape[r.randrange(ndim)] = 0
        a = np.zeros(shape, dtype or r.choice(TYPES))
        how = r.randrange(8)
        if how == 1 and ndim is not None:
            a = a.T
        elif how == 2 and a.ndim:
            k = r.randrange(a.ndim)
            big = np.zeros([2 * n if i == k else n for i, n in enumerate(shape)], a.dtype)
            a = big[tuple(slice(0, None, 2) if i == k else slice(None) for i in range(a.ndim))]
        elif how == 3 and a.ndim:
            a = a[::-1]
        elif how == 4 and a.ndim:
            a = np.broadcast_to(a[:1], a.shape) if a.shape[0] else a
        if r.random() < 0.25:
            a = a.view()
            a.flags.writeable = False
        return a

    def double(self):
        r = self.rng
        k = r.randrange(6)
        if k == 0:
            return r.randrange(-1000, 1000)         # an integer where a float is meant
        if k == 1:
            return float(r.randrange(1, 100))
        v = r.uniform(-1, 1) * 10.0 ** r.randrange(-12, 13)
        return np.float64(v) if k == 2 else v

    def i32(self):
        r = self.rng
        v = r.choice([r.randrange(-2 ** 31, 2 ** 31), r.randrange(-100, 100), 2 ** 31 - 1, -2 ** 31])
        return np.int32(v) if r.random() < 0.1 else v

    def describe(self, n, v):
        g = {"n": n}
        if v is None:
            g["k"] = "none"
        elif isinstance(v, np.ndarray):
            g.update(k="arr", a=str(v.ctypes.data), ty=str(v.dtype), ro=int(not v.flags.writeable),
                     sh=[str(x) for x in v.shape], st=[str(x) for x in v.strides], sz=int(v.size))
        elif isinstance(v, tuple):
            g.update(k="tup", v=[num(x) for x in v])
        elif isinstance(v, ctypes.c_int):
            g.update(k="pint", t=num(v.value))
        else:
            i = int(v) if isinstance(v, (int, np.integer)) and abs(int(v)) < 2 ** 31 else 0
            g.update(k="num", t=num(v), i=i)
        return g

    def make(self, ps, o):
        """Values for the parameters: {name: value}, and their descriptions."""
        r = self.rng
        vals, desc = {}, []
        nch, rows = r.randrange(1, 5), r.randrange(1, 5)
        vals_w = {}
        for n, k in ps:
            w = None
            if n in o["none"]:
                v = None
            elif n == o["bad"]:
                v = r.choice([np.zeros(3, "float16"), np.zeros(3, "int64"), np.zeros((2, 2), ">f8"),
                              np.zeros(2, "uint8"), np.zeros(2, bool), [1.0, 2.0], 3.0, "x",
                              np.zeros(2, ">i4"), np.zeros(2, "uint32"), np.zeros(2, ">c16")])
                vals[n] = v
                desc.append({"n": n, "k": "bad"})
                continue
            elif k == "mem":
                v = self.array()
            elif k == "memx":
                v = self.array(ndim=r.choice([1, 1, 2]))
            elif k == "mem2":
                v = self.array(shape=[rows, 3], dtype="float64")
            elif k == "memv":
                v = self.array(shape=[rows, nch], dtype=r.choice(TYPES[4:]))
            elif k == "newvis":
                v = self.array(shape=[rows, nch], dtype="complex128")
            elif k in ("uvw2", "uvw3"):
                t = r.choice(["float32", "float64"])
                shape = [r.randrange(1, 6), 3] if k == "uvw2" else [r.randrange(1, 4), r.randrange(1, 4), 3]
                v = np.array([r.randrange(-999, 1000) for _ in range(int(np.prod(shape)))], t).reshape(shape)
                if r.random() < 0.5:    # what must not matter is large
                    v[..., 2 if k == "uvw3" else r.randrange(2)] *= 1000
                w = [int(x) for x in (v[:, 2] if k == "uvw2" else v[:, :, :2]).ravel()]
            elif k == "freq":
                w = [r.randrange(1, 50) for _ in range(r.randrange(1, 5))]
                v = np.array([x * float(C0) for x in w], "float64")
            elif k == "i32":
                v = self.i32()
            elif k == "i30":
                v = r.randrange(1, 2 ** 30)
            elif k == "i64":
                v = r.choice([r.randrange(-2 ** 62, 2 ** 62), r.randrange(-100, 100), 2 ** 40 + 3, -2 ** 33])
            elif k == "size":
                v = {"image_size": 2 ** 12, "yN_size": 2 ** r.randrange(6, 13),
                     "xM_size": 2 ** r.randrange(6, 13)}[n]
            elif k == "f64":
                v = self.double()
            elif k == "f32":
                v = float(np.float32(r.uniform(-100, 100)))
            elif k == "flag":
                v = r.choice([True, False, 1, 0])
            elif k == "tup":
                v = (self.i32(), self.i32(), self.i32())
            elif k == "chan":
                v = {0: nch, 1: nch + r.choice([-1, 1, 5]), 2: 0}[o["wrong"]]
                if o["wrong"] == 1 and v == 0:
                    v = nch + 1
                if not any(q == "memv" for _, q in ps):
                    v = nch
            elif k == "pint":
                v = ctypes.c_int(r.randrange(-2 ** 31, 2 ** 31))
            elif k == "obj":
                vals[n] = self.obj[o["h2"]]
                desc.append({"n": n, "k": "obj", "slot": o["h2"]})
                continue
            elif k == "sky":
                v, d = self.coordinate()
                vals[n] = v
                desc.append(dict(d, n=n, k="sky"))
                continue
            else:
                raise RuntimeError("kind " + k)
            vals[n] = v
            d = self.describe(n, v)
            if w is not None:
                d["w"] = w
            desc.append(d)
        return vals, desc

    def coordinate(self):
        r = self.rng
        v = [r.uniform(-6, 6), r.uniform(-1.5, 1.5), r.uniform(-1, 1)]
        if r.random() < 0.4:
            a = astropy.coordinates.SkyCoord(v[0] % 6.28, v[1], unit="rad", frame="icrs")
            return a, {"ty": "icrs", "v": [num(a.ra.rad), num(a.dec.rad), "0"], "ep": "2000"}
        t = r.choice(["icrs", "ICRS", "fk5", "galactic"])
        ep = 2000.0
        if r.random() < 0.5:
            s = self.sky(t, v[0], v[1])
            v[2] = 0.0
        else:
            s = self.sky(t, *v)
        if r.random() < 0.5:
            ep = r.choice([1950.0, 2015.5, 0.0])
            s.set_epoch(ep)
        return s, {"ty": t, "v": [num(x) for x in v], "ep": num(ep)}

    # ---- calls
    def result(self, v):
        if v is None:
            return {"k": "none"}
        if isinstance(v, np.ndarray):
            return {"k": "arr", "a": str(v.ctypes.data), "zero": int(not np.any(v))}
        if isinstance(v, (bool, int, float, np.number)):
            return {"k": "num", "t": num(v)}
        if isinstance(v, (list, tuple)):
            return {"k": "list", "v": [num(x) for q in v for x in (q if hasattr(q, "__len__") else [q])]}
        return {"k": "other"}

    def find(self, path):
        m, name = self.imp("ska_sdp_func"), "ska_sdp_func"
        for p in path.split("."):
            name += "." + p
            m = getattr(m, p) if hasattr(m, p) else self.imp(name)
        return m

    def log(self):
        import json
        s = "[" + self.lib.stub_log().decode() + "]"
        self.lib.stub_clear()
        return json.loads(s)

    def step(self, o, tr):
        ev = {"op": o["op"], "f": o.get("f", ""), "h": o["h"]}
        self.lib.stub_clear()
        if o["op"] == "drop":
            self.obj.pop(o["h"])
            gc.collect()
            tr.put("Step", given=[], err=0, memfail=0, bad="", res={"k": "none"}, log=self.log(), **ev)
            return
        vals, given = self.make(o["ps"], o)
        given = [g for g in given if g["n"] not in o["omit"]]
        names = [p[0] for p in o["ps"]]
        nargs = len(names)
        if o["mode"] == "kw":
            nargs = 0
        elif o["mode"] == "mixed":
            nargs = self.rng.randrange(len(names) + 1)
        args, kw = [], {}
        for i, n in enumerate(names):
            if n in o["omit"]:
                continue
            if i < nargs and len(args) == i:
                args.append(vals[n])
            else:
                kw[n] = vals[n]
        self.lib.stub_set(o["err"], int(o["null"] or (o["op"] == "new" and o["err"] != 0)),
                          o["memfail"], o["memerr"])
        after = ""
        try:
            if o["op"] == "new":
                self.obj[o["h"]] = self.find(o["f"])(*args, **kw)
                v = None
            elif o["op"] == "call":
                v = self.find(o["f"])(*args, **kw)
            else:
                m = o["f"].split(".")[-1]
                v = getattr(self.obj[o["h"]], m)
                if o["op"] == "meth":
                    v = v(*args, **kw)
            res = self.result(v)
        except Exception as e:
            if os.environ.get("DEBUG"):
                import traceback
                traceback.print_exc()
            res = {"k": "exc", "x": type(e).__name__, "t": str(e).replace('"', "'")}
        for n, k in o["ps"]:
            if k == "pint":
                after = num(vals[n].value)
        self.lib.stub_set(0, 0, 0, 0)
        log = self.log()
        v = vals = args = kw = None
        tr.put("Step", given=given, err=o["err"], memfail=o["memfail"], memerr=o["memerr"],
               bad=o["bad"], after=after, res=res, log=log, **ev)
        gc.collect()
        # What is released once the values of the step are gone.
        tr.put("Step", op="rest", f="", h=0, given=[], err=0, memfail=0, bad="", res={"k": "none"},
               log=self.log())


def one(case, tr, seed):
    w = World(random.Random(seed * 1000003 + case))
    for o in SCRIPTS[case]:
        w.step(o, tr)
    w.lib.stub_clear()
    for h in sorted(w.obj):
        w.step({"op": "drop", "h": h}, tr)
    gc.collect()
    tr.put("Step", op="end", f="", h=0, given=[], err=0, memfail=0, bad="", res={"k": "none"}, log=w.log())


SCRIPTS = pycase.scripts()
stub.build(SRC, DIR)
pycase.run(range(len(SCRIPTS)), one)
