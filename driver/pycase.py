"""Scripts, forked cases and trace lines for the drivers of the Python package."""
import json
import os
import sys


def scripts():
    """The scripts named by $SCRIPTS: lists of operations."""
    out, cur = [], []
    with open(os.environ["SCRIPTS"]) as f:
        for line in f:
            if line.strip():
                cur.append(json.loads(line.split("\t", 1)[1]))
            elif cur:
                out.append(cur)
                cur = []
    if cur:
        out.append(cur)
    return out


class Trace:
    def __init__(self, path, case):
        self.f, self.case = open(path, "a"), case

    def put(self, kind, **kw):
        d = {"e": kind}
        d.update(kw)
        d["c"] = self.case
        self.f.write(json.dumps(d, separators=(",", ":")) + "\n")
        self.f.flush()


def run(cases, one, timeout=120):
    """Runs one(case number, trace) in a child process for every case of this shard."""
    out, seed, _, shard, nsh = sys.argv[1], *map(int, sys.argv[2:6])
    only = int(sys.argv[6]) if len(sys.argv) > 6 else None
    open(out, "w").close()
    late = 0            # cases that did not end: three say enough
    for c in cases:
        if late == 3:
            break
        if (only is None and c % nsh != shard) or (only is not None and c != only):
            continue
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            import signal
            signal.alarm(timeout)
            try:
                one(c, Trace(out, c), seed)
                os._exit(0)
            except BaseException:       # the driver itself failed
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(77)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
            sys.exit(1)
        if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
            late += os.WIFSIGNALED(st) and os.WTERMSIG(st) == 14
            Trace(out, c).put("Crash")
