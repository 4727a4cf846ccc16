#!/usr/bin/env python3
"""Builds the library variants once (the checks rebuild incrementally)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["setup"]
import vrun  # noqa: E402
from concurrent.futures import ThreadPoolExecutor  # noqa: E402
with ThreadPoolExecutor(4) as ex:
    for d in ex.map(vrun.build_lib, ("asan", "rel", "native", "tsan")):
        print("built", d)
