"""Sky coordinates, made and asked from Python and from C, by scripts drawn from spec/SkyGen.tla."""
import ctypes
import gc
import glob
import os
import random

import astropy.coordinates
import numpy as np

import pycase
from ska_sdp_func.utility import SkyCoord

LIB = ctypes.CDLL(glob.glob(os.path.join(os.environ["SKA_SDP_FUNC_LIB_DIR"], "libska_sdp_func*"))[0])
D, P = ctypes.c_double, ctypes.c_void_p
for name, res, args in (("create", P, [ctypes.c_char_p, D, D, D]), ("free", None, [P]), ("epoch", D, [P]),
                        ("set_epoch", None, [P, D]), ("value", D, [P, ctypes.c_int32]),
                        ("type", ctypes.c_char_p, [P])):
    f = getattr(LIB, "sdp_sky_coord_" + name)
    f.restype, f.argtypes = res, args


def num(v):
    return "0" if v == 0 else "%.17g" % v


class Raw:
    """The same questions, put to the C functions."""

    def __init__(self, t, v):
        buf = ctypes.create_string_buffer(t.encode())
        self.p = LIB.sdp_sky_coord_create(buf, *v)
        ctypes.memset(buf, ord("#"), len(t.encode()))       # the text is the caller's again

    def __del__(self):
        LIB.sdp_sky_coord_free(self.p)

    def epoch(self):
        return LIB.sdp_sky_coord_epoch(self.p)

    def set_epoch(self, v):
        LIB.sdp_sky_coord_set_epoch(self.p, v)

    def value(self, n):
        return LIB.sdp_sky_coord_value(self.p, n)

    def type(self):
        return LIB.sdp_sky_coord_type(self.p).decode()


class World:
    def __init__(self, rng):
        self.rng, self.obj = rng, {}

    def draw(self):
        r = self.rng
        return r.choice([0.0, 1.0, -1.5, r.uniform(-7, 7), r.uniform(-1, 1) * 10.0 ** r.randrange(-300, 300),
                         float(r.randrange(-9, 10)), 1e-310, 1950.0, 2000.0, 2024.5])

    def step(self, o):
        r, op = self.rng, o["op"]
        if op in ("make", "cmake"):
            v = [self.draw() for _ in range(o["n"])]
            o["v"] = [num(x) for x in v]
            self.obj[o["i"]] = SkyCoord(o["t"], *v) if op == "make" else Raw(o["t"], v)
        elif op == "astro":
            ra, dec = r.uniform(0, 6.28), r.uniform(-1.57, 1.57)
            kind = astropy.coordinates.SkyCoord
            a = kind(l=ra, b=dec, unit="rad", frame="galactic") if o["frame"] == "galactic" else \
                kind(ra=ra, dec=dec, unit="rad", frame=o["frame"])
            o["v"] = [num(a.ra.rad), num(a.dec.rad)] if o["frame"] != "galactic" else ["0", "0"]
            self.obj[o["i"]] = SkyCoord(a)
        elif op == "copy":
            self.obj[o["i"]] = SkyCoord(self.obj[o["j"]])
        elif op == "value":
            return num(self.obj[o["i"]].value(o["n"]))
        elif op == "epoch":
            return num(self.obj[o["i"]].epoch())
        elif op == "type":
            return self.obj[o["i"]].type()
        elif op == "set":
            v = self.draw()
            o["v"] = [num(v)]
            self.obj[o["i"]].set_epoch(v)
        elif op == "drop":
            del self.obj[o["i"]]
            gc.collect()
            junk = [b"\x5a" * n for n in range(1, 90)]
            del junk
        elif op == "bad":
            args = {"none": (None,), "number": (3.0,), "text": ("icrs",), "tuple": (("icrs", 1.0, 2.0),),
                    "nothing": (), "two": ("icrs", 1.0), "array": (np.zeros(3),), "nonascii": ("icr\u00e9", 1.0, 2.0),
                    "dict": ({"ra": 1.0},)}[o["f"]]
            SkyCoord(*args)
        elif op == "null":
            if o["f"] == "type":
                return "null" if LIB.sdp_sky_coord_type(None) is None else "text"
            if o["f"] == "epoch":
                return num(LIB.sdp_sky_coord_epoch(None))
            if o["f"] == "value":
                return num(LIB.sdp_sky_coord_value(None, r.randrange(-1, 4)))
            if o["f"] == "set":
                LIB.sdp_sky_coord_set_epoch(None, 1950.0)
            else:
                LIB.sdp_sky_coord_free(None)
        return ""


SCRIPTS = pycase.scripts()


def one(c, tr, seed):
    w = World(random.Random(seed * 100003 + c))
    for o in SCRIPTS[c]:
        exc, ret = "", ""
        try:
            ret = w.step(o)
        except Exception as e:      # pylint: disable=broad-except
            exc = type(e).__name__
        tr.put("Step", o=o, exc=exc, ret=ret)


pycase.run(range(len(SCRIPTS)), one)
