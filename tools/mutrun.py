"""One check in a fast mode used for mutation analysis only (tools/mutate.py):
no model checking, generated behaviours from a cache, and recorded executions
validated by TLC only if they differ from those of the unmutated code.
usage: mutrun.py ID REPO CACHE WORK"""
import hashlib
import json
import os
import pickle
import shutil
import sys

pid, repo, cache, work = sys.argv[1:5]
os.environ["VERIF_REPO"] = repo
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
import vlib  # noqa: E402

vlib.NPROC = 2
os.makedirs(cache, exist_ok=True)


def key(*a):
    return hashlib.sha1(repr(a).encode()).hexdigest()[:20]


def cached(fn, name):
    def f(self, *a, **k):
        ks = key(pid, name, [sorted(x.items()) if isinstance(x, dict) else x for x in a],
                 sorted((q, str(w)) for q, w in k.items()))
        p = os.path.join(cache, "%s_%s.pkl" % (name, ks))
        if os.path.exists(p):
            with open(p, "rb") as g:
                return pickle.load(g)
        r = fn(self, *a, **k)
        with open(p + str(os.getpid()), "wb") as g:
            pickle.dump(r, g)
        os.rename(p + str(os.getpid()), p)
        return r
    return f


vlib.Tlc.model_check = lambda self, *a, **k: None
vlib.Tlc.generate = cached(vlib.Tlc.generate, "gen_" + pid)
real_record = vlib.Check.record


def record(self, name, exe, module, constants, scripts, invariants=(), args=(), timeout=400, tag=""):
    ops = [o for sc in scripts for o in sc]
    outs, rc, err = vlib.run_harness(exe, ops, args, timeout)
    p = os.path.join(cache, "rec_%s_%s.json" % (pid, key(name, ops, list(args))))
    if rc == 0 and os.path.exists(p):
        with open(p) as g:
            if json.load(g) == outs:
                return
    real_record(self, name, exe, module, constants, scripts, invariants, args, timeout, tag)
    if not os.path.exists(p):
        with open(p, "w") as g:
            json.dump(outs, g)


vlib.Check.record = record


def compile_one(self, src, extra=()):
    base = [vlib.CXX] + self.flags + list(self.san) + list(extra)
    if src.endswith(".pb.cc"):
        with open(src) as g:
            h = key(g.read(), extra)
    else:
        r = self._run(base + ["-E", "-P", src])
        if r.returncode:
            return src, "", r.returncode, r.stderr
        h = key(r.stdout, extra, self.san)
    obj = os.path.join(cache, "o_%s.o" % h)
    if not os.path.exists(obj):
        tmp = obj + str(os.getpid())
        r = self._run(base + ["-c", src, "-o", tmp])
        if r.returncode:
            return src, "", r.returncode, r.stderr
        os.rename(tmp, obj)
    return src, obj, 0, ""


vlib.Builder.compile_one = compile_one
import importlib.util  # noqa: E402
s = importlib.util.spec_from_file_location("prop_" + pid, V + "/props/%s.py" % pid)
m = importlib.util.module_from_spec(s)
s.loader.exec_module(m)


class C(vlib.Check):
    def __init__(self, p):
        super().__init__(p)

    def evidence(self, violations=0):
        pass

    def replay_file(self, name, obj):
        return "-"


old = os.path.join


def start():
    c = C.__new__(C)
    c.pid = pid
    import random
    import time
    c.t0 = time.time()
    c.work = work
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    c.tlc = vlib.Tlc(work)
    c.rng = random.Random(vlib.SEED * 1000003 + sum(map(ord, pid)))
    c.traces_validated = c.events = 0
    c.samples, c.notes, c.assumptions = [], [], []
    c.known, c.known_hit = vlib.load_known(pid), set()
    return c


try:
    c = start()
    m.run(c)
except vlib.Violation as v:
    print("KILLED", v.what[:160])
    sys.exit(1)
except vlib.CheckError as e:
    print("ERROR", str(e)[-300:])
    sys.exit(2)
finally:
    shutil.rmtree(work, ignore_errors=True)
print("SURVIVED")
