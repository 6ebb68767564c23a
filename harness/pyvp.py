"""The vp_main protocol for Python monitors: --seed --tier --shard --nshards --from --case --out --cur."""
import gc
import json
import mmap
import os
import random
import struct
import sys
import traceback


class Skip(Exception):
    pass


class Ctx:
    def __init__(self, a, pid):
        self.seed = int(a.get("--seed", 1))
        self.thorough = a.get("--tier") == "thorough"
        self.shard = int(a.get("--shard", 0))
        self.nsh = int(a.get("--nshards", 1))
        self.start = int(a.get("--from", 0))
        self.only = int(a.get("--case", -1))
        self.ncases = int(a.get("--cases", -1))
        self.replay = self.only >= 0
        self.pid = pid
        self.f = open(a.get("--out", "/dev/stderr"), "a")
        self.cur = None
        if "--cur" in a:
            with open(a["--cur"], "wb") as f:
                f.write(struct.pack("<q", -1))
            self._cf = open(a["--cur"], "r+b")
            self.cur = mmap.mmap(self._cf.fileno(), 8)
        self.counts, self.cov, self.samples = {}, set(), []
        self.evals = self.skipped = 0
        self.idx = -1
        self.perkey = {}

    def set_cur(self, v):
        if self.cur is not None:
            self.cur[0:8] = struct.pack("<q", v)

    def viol(self, key, msg):
        n = self.perkey[key] = self.perkey.get(key, 0) + 1
        if n <= 6:
            self.f.write(json.dumps({"t": "viol", "case": self.idx, "key": key, "msg": str(msg)[:3000]}) + "\n")
            self.f.flush()

    def check(self, ok, key, msg):
        if not ok:
            self.viol(key, msg() if callable(msg) else msg)
        return ok

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def cover(self, h):
        self.cov.add(h & 0xFFFFFFFFFFFFFFFF)

    def rng(self):
        return random.Random("%s/%d/%d" % (self.pid, self.seed, self.idx))

    def finish(self):
        self.f.write(json.dumps({"t": "sum", "evals": self.evals, "skipped": self.skipped, "counts": self.counts,
                                 "cov": ["%x" % h for h in self.cov], "samples": self.samples[:3]}) + "\n")
        self.f.close()
        self.set_cur(-2)


def args():
    av = sys.argv[1:]
    return dict(zip(av[0::2], av[1::2]))


def loop(pid, n_cases, case):
    """case(ctx, rng) for every case of this shard."""
    c = Ctx(args(), pid)
    n = c.ncases if c.ncases >= 0 else n_cases(c.thorough)
    todo = [c.only] if c.replay else [i for i in range(n) if i % c.nsh == c.shard and i >= c.start]
    for i in todo:
        c.idx = i
        c.set_cur(i)
        try:
            case(c, c.rng())
        except Skip:
            c.skipped += 1
        except Exception:
            c.viol("unexpected-exception", traceback.format_exc()[-2500:])
    c.finish()
    sys.stdout.flush()


def close(a, b, tol=1e-9):
    """Element-wise, NaN equal to NaN."""
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not (fa == fb).all():
        return False
    if not ((a == b) | (np.isnan(a) & np.isnan(b)) | fa).all():
        return False
    x, y = a[fa], b[fb]
    if x.size == 0:
        return True
    return bool((abs(x - y) <= tol * (1 + abs(x).max())).all())
