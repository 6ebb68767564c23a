"""The Python properties: builds the extension module outside /repo (plain and with AddressSanitizer) and runs the monitors."""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig

import run as R
from run import CheckError, build_cpp, compile_jobs, lib_sources, read, run_cmd, run_shards, sha, tree_hash

PYEXE = "/usr/bin/python3"
FLAV = {"plain": ["-O1", "-g1"],
        "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]}


def _pyinc():
    r = subprocess.run([PYEXE, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                       stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise CheckError("no system Python")
    return r.stdout.split()


def _pybind():
    for d in ("/usr/include",) + tuple(glob.glob("/usr/lib/python3/dist-packages/pybind11/include")):
        if os.path.exists(os.path.join(d, "pybind11", "pybind11.h")):
            return [] if d == "/usr/include" else ["-isystem", d]
    raise CheckError("no pybind11 headers")


def build_ext(flavour):
    """A directory with the factorama package whose extension was compiled from /repo's working tree."""
    inc, suffix = _pyinc()
    pysrc = os.path.join(R.REPO, "python_bindings", "python")
    exts = sorted(glob.glob(os.path.join(pysrc, "factorama", "*.cpp")))
    if not exts:
        raise CheckError("no binding sources")
    flags = ["-std=c++17", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-pthread", "-w", "-isystem", "/usr/include/eigen3", "-isystem", inc] + _pybind() + [
             "-I" + os.path.join(R.REPO, "src"), "-DVERSION_INFO=1"] + FLAV[flavour]
    hdr = tree_hash([os.path.join(R.REPO, "src"), pysrc], (".hpp", ".h"))
    jobs = []
    for s in exts + lib_sources():
        key = sha(s, read(s), hdr, " ".join(flags), R.REPO)
        obj = os.path.join(R.BUILD, "obj", "py-" + os.path.basename(s) + "." + flavour + "." + key + ".o")
        jobs.append((s, obj, ["g++"] + flags))
    compile_jobs(jobs)
    objs = [j[1] for j in jobs]
    pys = sorted(glob.glob(os.path.join(pysrc, "factorama", "*.py")))
    d = os.path.join(R.BUILD, "py-" + flavour + "-" + sha(*objs, *[os.path.basename(p).encode() + read(p) for p in pys]))
    if not os.path.exists(os.path.join(d, "ok")):
        pk = os.path.join(d, "factorama")
        os.makedirs(pk, exist_ok=True)
        so = os.path.join(pk, "_factorama" + suffix)
        r = run_cmd(["g++", "-shared"] + (["-fsanitize=address"] if flavour == "asan" else []) + objs + ["-o", so + ".tmp", "-pthread"])
        if r.returncode:
            raise CheckError("link of the extension failed\n" + r.stdout[-3000:])
        os.replace(so + ".tmp", so)
        for p in pys:
            shutil.copy(p, pk)
        open(os.path.join(d, "ok"), "w").close()
    return d


def env_for(flavour, d):
    e = {"PYTHONPATH": d + os.pathsep + R.HARN, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
         "MPLCONFIGDIR": os.path.join(R.BUILD, "mpl"), "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "PYTHONNOUSERSITE": "1"}
    if flavour == "asan":
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        cxx = subprocess.run(["g++", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_PRELOAD"] = os.path.realpath(lib) + " " + os.path.realpath(cxx)
        e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=128"
        e["PYTHONMALLOC"] = "malloc"
    return e


def spec(pid):
    if pid == "P23":
        return "plain", ["p23.py", "--gen", build_cpp(["p23gen.cpp"], "plain")]
    if pid == "P24":
        return "asan", ["p24.py"]
    if pid == "P25":
        return "plain", ["p25.py"]
    if pid == "P30":
        return "plain", ["p30.py", "--stubs", os.path.join(R.REPO, "python_bindings", "python", "factorama")]
    raise CheckError("unknown Python property " + pid)


def command(pid):
    fl, a = spec(pid)
    d = build_ext(fl)
    os.makedirs(os.path.join(R.BUILD, "mpl"), exist_ok=True)
    return [PYEXE, os.path.join(R.HARN, a[0])] + a[1:], env_for(fl, d)


def run(pid, tier, seed):
    cmd, env = command(pid)
    return run_shards(cmd, seed, tier, 850 if tier == "quick" else 7000, env_extra=env)


def replay(pid, seed, case, tier):
    cmd, env = command(pid)
    e = dict(os.environ)
    e.update(R.ENV)
    e.update(env)
    return subprocess.run(cmd + ["--seed", str(seed), "--tier", tier, "--case", str(case)], env=e).returncode


def setup():
    import checks
    for pid in checks.PY:
        command(pid)
