"""numpy arrays, and the library's descriptors of them, over the same memory.

Plays scripts drawn from spec/PyMemGen.tla on the Python package and the real library.
"""
import ctypes
import gc
import glob
import os
import random
import struct
import weakref

import numpy as np

import pycase
from ska_sdp_func.examples import vector_add
from ska_sdp_func.utility import CError, Mem

CODE = {1: ("b", 1), 2: ("i", 4), 4: ("f", 4), 8: ("d", 8), 36: ("ff", 8), 40: ("dd", 16)}
LIB = ctypes.CDLL(glob.glob(os.path.join(os.environ["SKA_SDP_FUNC_LIB_DIR"], "libska_sdp_func*"))[0])
for name, res in (("type", ctypes.c_int), ("location", ctypes.c_int), ("num_dims", ctypes.c_int32),
                  ("is_read_only", ctypes.c_int32), ("is_c_contiguous", ctypes.c_int32),
                  ("num_elements", ctypes.c_int64), ("shape_dim", ctypes.c_int64),
                  ("stride_bytes_dim", ctypes.c_int64), ("data", ctypes.c_void_p)):
    getattr(LIB, "sdp_mem_" + name).restype = res
BAD = {
    "list": [1.0, 2.0], "float": 3.0, "int": 7, "text": "array", "npfloat": np.float64(2.0), "tuple": (1, 2),
    "bigf8": np.zeros(3, ">f8"), "bigi4": np.zeros((2, 2), ">i4"), "bigc16": np.zeros(2, ">c16"),
    "object": np.zeros(2, object), "str": np.array(["a", "b"]), "record": np.zeros(2, [("a", "f8"), ("b", "f8")]),
}


def whole(x):
    x = float(x)
    return int(x) if x == int(x) and abs(x) < 2 ** 30 else 2000000003


class World:
    def __init__(self, rng):
        self.rng = rng
        self.bufs, self.arrs = [], []       # bufs: (weak reference, address, bytes)
        self.mems, self.owner = [], []

    def pair(self, t):
        v = self.rng.randrange(-60, 61)
        return [v, self.rng.randrange(-60, 61) if t.startswith("complex") else 0]

    def desc(self, m, buf):
        m = self.mems[m]
        nd = LIB.sdp_mem_num_dims(m)
        p = LIB.sdp_mem_data(m)
        return {"ty": LIB.sdp_mem_type(m), "loc": LIB.sdp_mem_location(m), "nd": nd,
                "ne": LIB.sdp_mem_num_elements(m), "ro": LIB.sdp_mem_is_read_only(m),
                "cont": LIB.sdp_mem_is_c_contiguous(m), "sh": [LIB.sdp_mem_shape_dim(m, k) for k in range(nd)],
                "st": [LIB.sdp_mem_stride_bytes_dim(m, k) for k in range(nd)],
                "ptr": -1 if p is None else max(min(p - self.bufs[buf][1], 2 ** 30), -2 ** 30) if buf is not None
                else -2}

    def places(self, m):
        """Addresses of the elements as the library has them, in C order, and how to read one."""
        m = self.mems[m]
        nd = LIB.sdp_mem_num_dims(m)
        sh = [LIB.sdp_mem_shape_dim(m, k) for k in range(nd)]
        st = [LIB.sdp_mem_stride_bytes_dim(m, k) for k in range(nd)]
        p = LIB.sdp_mem_data(m)
        out = [p] if p is not None else []
        for n, d in zip(sh, st):
            out = [q + k * d for q in out for k in range(n)]
        return out, CODE.get(LIB.sdp_mem_type(m), ("b", 1))

    def step(self, o):
        r, ev = self.rng, {}
        op = o["op"]
        if op == "arr":
            n = int(np.prod(o["sh"], dtype=int))
            o["data"] = [self.pair(o["t"]) for _ in range(n)]
            flat = np.array([complex(*q) if o["t"].startswith("complex") else q[0] for q in o["data"]], o["t"])
            base = np.empty(o["sh"], o["t"], order=o["order"].upper())
            base[...] = flat.reshape(o["sh"], order=o["order"].upper())
            self.bufs.append((weakref.ref(base), base.ctypes.data, base.nbytes))
            self.arrs.append((base, len(self.bufs) - 1))
            del base
        elif op == "view":
            a, b = self.arrs[o["i"] - 1]
            x, n, h = o["x"] - 1, o["n"], o["how"]
            at = lambda q: tuple([slice(None)] * x + [q])
            v = (a.T if h == "T" else a[at(slice(None, None, -1))] if h == "rev"
                 else a[at(slice(None, None, n))] if h == "step" else a[at(slice(n, None))] if h == "from"
                 else a[at(slice(None, a.shape[x] - n))] if h == "upto"
                 else a[at(n) + (Ellipsis,)] if h == "idx" else np.expand_dims(a, x) if h == "new"
                 else np.broadcast_to(a, (n,) + a.shape))
            self.arrs.append((v, b))
            del a, v
        elif op == "lock":
            self.arrs[o["i"] - 1][0].flags.writeable = False
        elif op == "poke":
            a = self.arrs[o["i"] - 1][0]
            o["val"] = self.pair(str(a.dtype))
            a[np.unravel_index(o["n"], a.shape) if a.ndim else ()] = \
                complex(*o["val"]) if a.dtype.kind == "c" else o["val"][0]
            del a
        elif op == "look":
            ev["vals"] = [[whole(q.real), whole(q.imag)] for q in self.arrs[o["i"] - 1][0].ravel(order="C").tolist()]
        elif op == "forget":
            self.arrs[o["i"] - 1] = None
        elif op in ("wrap", "none"):
            a, b = self.arrs[o["i"] - 1] if op == "wrap" else (None, None)
            self.mems.append(Mem(a))
            self.owner.append(b)
            del a
        elif op == "bad":
            Mem(BAD[o["n"]] if o["n"] in BAD else np.zeros(r.randrange(1, 5), o["n"]))
        elif op == "see":
            q, (fmt, size) = self.places(o["m"] - 1)
            ev["vals"] = [[whole(x) for x in (struct.unpack(fmt, ctypes.string_at(p, size)) + (0,))[:2]] for p in q]
        elif op == "cpoke":
            q, (fmt, size) = self.places(o["m"] - 1)
            o["val"] = self.pair("complex" if len(fmt) == 2 else "")
            ctypes.memmove(q[o["n"]], struct.pack(fmt, *o["val"][:len(fmt)]), size)
        elif op == "free":
            self.mems[o["m"] - 1] = None
        elif op == "add":
            a = [self.arrs[o[k] - 1][0] for k in "ijk"]
            try:
                vector_add(*a)
            finally:
                del a
        return ev

    def play(self, ops, tr):
        for o in ops:
            exc, ev = "", {}
            try:
                ev = self.step(o)
            except CError as e:
                exc = "CError " + str(e).split(":")[0].split()[-1]
            except Exception as e:      # pylint: disable=broad-except
                exc = type(e).__name__
            op = o["op"]
            if op in ("forget", "free"):
                # what was given up is reused at once
                gc.collect()
                for n in {b[2] for b in self.bufs if b[2]}:
                    junk = [np.full(n, 0x5A, "int8") for _ in range(8)]
                    del junk
            if not exc and op in ("arr", "view"):
                a = self.arrs[-1][0]
                ev.update(sh=list(a.shape), st=list(a.strides), ro=int(not a.flags.writeable))
                del a
            if not exc and op in ("wrap", "none", "see"):
                k = (o["m"] if op == "see" else len(self.mems)) - 1
                ev["d"] = self.desc(k, self.owner[k])
            tr.put("Step", o=o, exc=exc, alive=[int(b[0]() is not None) for b in self.bufs], **ev)
            if exc and not (op in ("bad", "add")):
                return


SCRIPTS = pycase.scripts()


def one(c, tr, seed):
    World(random.Random(seed * 100003 + c)).play(SCRIPTS[c], tr)


pycase.run(range(len(SCRIPTS)), one)
