#!/usr/bin/env python3
"""run.py <property> quick|thorough   - decide one property on /repo's current working tree
run.py --setup                        - build everything once
run.py <property> --replay N          - run one case again, printing its events

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NPROC = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, HARN)

BASE = ["-std=c++17", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-pthread",
        "-include", os.path.join(HARN, "prefix.hpp"), "-isystem", "/usr/include/eigen3", "-I" + os.path.join(REPO, "src"),
        "-I" + HARN, "-w"]
FLAVOURS = {
    "plain": ["-O1", "-g1", "-fno-omit-frame-pointer"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "vg": ["-O1", "-g1", "-fno-omit-frame-pointer", "-UEIGEN_INITIALIZE_MATRICES_BY_NAN"],
    "cov": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize-coverage=trace-pc"],  # every basic block is counted (P28)
}
LINK = {"plain": [], "asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"], "vg": [], "cov": []}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "allocator_may_return_null=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
}


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(pattern_dirs, exts):
    h = hashlib.sha256()
    for d in pattern_dirs:
        for root, dirs, files in sorted(os.walk(d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(exts):
                    h.update(f.encode() + b"\0" + read(os.path.join(root, f)) + b"\0")
    return h.hexdigest()[:24]


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def compile_jobs(jobs):
    """jobs: list of (src, obj, cmd). Objects are keyed by content, so an existing one is current."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    todo = [j for j in jobs if not os.path.exists(j[1])]

    def one(j):
        src, obj, cmd = j
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), abs(hash(src)) % 10**8)
        r = run_cmd(cmd + ["-c", src, "-o", tmp])
        if r.returncode:
            raise CheckError("compile failed: %s\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)

    # biggest first
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for f in [ex.submit(one, j) for j in todo]:
            f.result()


def cpp_jobs(srcs, flavour, extra=()):
    cxx = "g++"
    hdr_repo = tree_hash([os.path.join(REPO, "src")], (".hpp", ".h"))
    hdr_h = tree_hash([HARN], (".hpp",))
    flags = [f for f in BASE if not (flavour == "vg" and f == "-DEIGEN_INITIALIZE_MATRICES_BY_NAN")] + FLAVOURS[flavour] + list(extra)
    jobs = []
    for s in srcs:
        lib = s.startswith(os.path.join(REPO, "src"))
        key = sha(s, read(s), hdr_repo, hdr_h if not lib else read(os.path.join(HARN, "prefix.hpp")), " ".join(flags), REPO)
        obj = os.path.join(BUILD, "obj", os.path.basename(s) + "." + flavour + "." + key + ".o")
        jobs.append((s, obj, [cxx] + flags))
    return jobs


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "src", "factorama", "**", "*.cpp"), recursive=True))
    if not s:
        raise CheckError("no library sources")
    return s


def build_cpp(main_srcs, flavour, extra=(), link_extra=(), uses_model=True):
    srcs = [os.path.join(HARN, m) for m in main_srcs] + [os.path.join(HARN, "vp_main.cpp")]
    if uses_model:
        srcs += [os.path.join(HARN, "model.cpp"), os.path.join(HARN, "gen.cpp")]
    jobs = cpp_jobs(srcs + lib_sources(), flavour, extra)
    compile_jobs(jobs)
    objs = [j[1] for j in jobs]
    exe = os.path.join(BUILD, "bin-" + sha(*objs, *link_extra))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = run_cmd(["g++"] + LINK[flavour] + objs + ["-o", tmp, "-pthread", "-ldl"] + list(link_extra))
        if r.returncode:
            raise CheckError("link failed\n" + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


# ------------------------------------------------------------------------------------------- running
def crash_key(rc, err):
    """A stable name for an abnormal end: what kind, and where in the library (file names only)."""
    import re
    kind = None
    m = re.search(r"VP-EIGEN-ASSERT: .*?\((\S+?):\d+\)", err)
    if m:
        kind = "eigen-assert:" + m.group(1)
    m = m and None or re.search(r"(AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([\w-]+)", err)
    if not kind and m:
        kind = m.group(1) + ":" + m.group(2)
    m = re.search(r"runtime error: (.+)", err)
    if not kind and m:
        kind = "UBSan:" + re.sub(r"[^a-z ]", "", m.group(1).lower())[:50].strip().replace(" ", "-")
    if not kind and "Assertion" in err:
        kind = "assertion"
    if not kind and "terminate called" in err:
        kind = "terminate"
    if not kind:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    m = re.search(r"/src/factorama/([\w./-]+?):\d+", err)
    return "crash:" + kind + (":" + m.group(1) if m else "")


class Result:
    def __init__(self):
        self.viols = []      # dict(case,key,msg)
        self.evals = 0
        self.skipped = 0
        self.counts = {}
        self.cov = set()
        self.samples = []
        self.notes = []
        self.cmds = []

    def merge(self, o):
        self.viols += o.viols
        self.evals += o.evals
        self.skipped += o.skipped
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.cov |= o.cov
        for s in o.samples:
            if len(self.samples) < 4:
                self.samples.append(s)
        self.notes += o.notes


def parse_events(path, res):
    n = 0
    if not os.path.exists(path):
        return 0
    with open(path, errors="replace") as f:
        for line in f:
            try:
                e = json.loads(line)
            except ValueError:
                continue
            if e["t"] == "viol":
                res.viols.append(e)
            elif e["t"] == "sum":
                n += 1
                res.evals += e["evals"]
                res.skipped += e.get("skipped", 0)
                for k, v in e["counts"].items():
                    res.counts[k] = res.counts.get(k, 0) + v
                res.cov |= set(e["cov"])
                for s in e["samples"]:
                    if len(res.samples) < 4:
                        res.samples.append(s)
    return n


def run_shards(argv, seed, tier, watchdog, nsh=NPROC, env_extra=None, cases=None, tag=""):
    """argv: command prefix of a harness that understands the vp_main options."""
    work = tempfile.mkdtemp(prefix="vp-", dir=BUILD)
    env = dict(os.environ)
    env.update(ENV)
    env.update(env_extra or {})
    base = ["--seed", str(seed), "--tier", tier] + (["--cases", str(cases)] if cases is not None else [])

    def go(args, out, cur, err, timeout):
        with open(err, "wb") as ef:
            p = subprocess.Popen(argv + base + args + ["--out", out, "--cur", cur], stdout=subprocess.DEVNULL, stderr=ef,
                                 env=env, cwd=work, start_new_session=True)
            try:
                return p.wait(timeout), False
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return -9, True

    def curcase(cur):
        try:
            return int.from_bytes(read(cur)[:8], "little", signed=True)
        except (OSError, ValueError):
            return -1

    def shard(i):
        r = Result()
        start = 0
        crashes = 0
        while True:
            out, cur, err = [os.path.join(work, "%s%d.%d" % (n, i, crashes)) for n in ("out", "cur", "err")]
            rc, hang = go(["--shard", str(i), "--nshards", str(nsh), "--from", str(start)], out, cur, err, watchdog)
            done = parse_events(out, r)
            if rc == 0 and done:
                return r
            errtxt = read(err).decode(errors="replace") if os.path.exists(err) else ""
            case = curcase(cur)
            if rc == 2 and case < 0:
                raise CheckError("harness refused to run: " + errtxt[-2000:])
            if case == -2:
                # finished, then failed at exit (leak report)
                r.viols.append({"case": -1, "key": crash_key(rc, errtxt), "msg": "at exit of shard %d: %s" % (i, errtxt[-3000:])})
                return r
            if hang:
                # re-run the stuck case alone before judging
                o2, c2, e2 = out + "r", cur + "r", err + "r"
                rc2, hang2 = go(["--case", str(case)], o2, c2, e2, max(60, watchdog / 2))
                if hang2:
                    r.viols.append({"case": case, "key": "hang", "msg": "case %d did not end within the watchdog, twice" % case})
                    return r
                r.notes.append("watchdog fired on case %d, which ended when run alone" % case)
                if rc2:
                    t2 = read(e2).decode(errors="replace")
                    r.viols.append({"case": case, "key": crash_key(rc2, t2), "msg": t2[-3000:]})
            else:
                r.viols.append({"case": case, "key": crash_key(rc, errtxt), "msg": "rc=%d %s" % (rc, errtxt[-3000:])})
            crashes += 1
            if crashes >= 3:
                return r
            start = case + 1

    total = Result()
    try:
        with cf.ThreadPoolExecutor(nsh) as ex:
            for r in ex.map(shard, range(nsh)):
                total.merge(r)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return total


# ------------------------------------------------------------------------------------------- verdict
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def finish(pid, tier, seed, res, meta, t0):
    known = {(k["property"], k["key"]): k for k in known_findings()}
    new, hit = [], {}
    for v in res.viols:
        k = known.get((pid, v["key"]))
        if k:
            hit.setdefault(v["key"], k)
        else:
            new.append(v)
    rule = meta["rule"]
    cov = {
        "evaluations": res.evals,
        "distinct_nontrivial": len(res.cov),
        "rule": rule,
        "samples": [s[:1500] for s in res.samples[:4]],
        "observed": dict(sorted(res.counts.items())),
        "out_of_domain_cases": res.skipped,
    }
    if res.notes:
        cov["notes"] = res.notes[:20]
    if hit:
        cov["known_findings_seen"] = sorted(hit)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # a finding listed for this property that no longer shows up is not an error, but it is said
    for (p, key), k in known.items():
        if p == pid and key not in hit:
            print("note: listed finding %s was not observed in this run" % key)
    if new:
        rdir = os.path.join(BUILD, "replay")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, seed))
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "violations": new[:50],
                       "reproduce": ["VERIF_SEED=%d python3 run.py %s --replay %s" % (seed, pid, v["case"]) for v in new[:5]]},
                      f, indent=1)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            print("  %s: case %s: %s" % (v["key"], v["case"], v["msg"][:600]))
            if len(seen) >= 8:
                break
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    missing = [c for c in meta.get("require", []) if not res.counts.get(c)]
    if res.evals == 0 or not res.cov or missing:
        print("check error: nothing observed (evaluations=%d distinct=%d missing=%s)" % (res.evals, len(res.cov), missing))
        return 2
    print("held: property=%s tier=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" %
          (pid, tier, res.evals, len(res.cov), time.time() - t0))
    return 0


def main():
    os.makedirs(BUILD, exist_ok=True)
    import checks
    if sys.argv[1:] == ["--setup"]:
        checks.setup()
        return 0
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return checks.replay(pid, seed, sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else "quick")
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise CheckError("tier?")
    res, meta = checks.run(pid, tier, seed)
    return finish(pid, tier, seed, res, meta, t0)


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    try:
        rc = main()
    except CheckError as e:
        print("check error: %s" % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
