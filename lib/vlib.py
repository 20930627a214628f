"""Shared machinery of the checks: build the harnesses from /repo, run TLC on the
specifications, replay specification behaviours in the real code, and validate
executions recorded from the real code against the specifications.

Outcomes: exit 0 (held), exit 1 + VIOLATION line, exit 2 (the check itself failed).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
CXX = "clang++-18"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check could not be carried out (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------
# Building
# --------------------------------------------------------------------------
ABSL_PKGS = ("absl_status absl_statusor absl_strings absl_str_format absl_span "
             "absl_any_invocable absl_btree absl_flat_hash_map absl_flat_hash_set "
             "absl_bits absl_int128 absl_synchronization absl_time absl_any absl_memory "
             "absl_variant absl_random_random absl_flags absl_flags_parse").split()


def absl_libs():
    out = subprocess.run(["pkg-config", "--libs"] + ABSL_PKGS, capture_output=True, text=True)
    if out.returncode != 0:
        out = subprocess.run(["pkg-config", "--libs"] + ABSL_PKGS[:-2],
                             capture_output=True, text=True)
    return out.stdout.split()


class Builder:
    """Compiles repository sources (never copies of them) plus a harness."""

    def __init__(self, work, sanitize=True, opt="-O1"):
        self.dir = os.path.join(work, "obj")
        os.makedirs(self.dir, exist_ok=True)
        self.flags = ["-std=c++17", opt, "-g1", "-include", "cstdint", "-Wno-everything",
                      "-I" + VERIF + "/shim/include", "-I" + VERIF + "/harness",
                      "-I" + self.dir + "/gen", "-I" + REPO, "-I/usr/src/googletest"]
        self.san = []
        if sanitize:
            self.san = ["-fsanitize=address,undefined",
                        "-fno-sanitize=vptr,function",
                        "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        self.pb = None

    def _run(self, cmd):
        return subprocess.run(cmd, capture_output=True, text=True)

    def proto(self):
        """component_data.pb.{h,cc}, generated from the repository's .proto."""
        if self.pb:
            return self.pb
        g = self.dir + "/gen"
        os.makedirs(g, exist_ok=True)
        r = self._run(["protoc", "-I" + REPO, "--cpp_out=" + g,
                       "mpact/sim/proto/component_data.proto"])
        if r.returncode != 0:
            raise CheckError("protoc failed: " + r.stderr[-2000:])
        self.pb = g + "/mpact/sim/proto/component_data.pb.cc"
        return self.pb

    def compile_one(self, src, extra=()):
        obj = os.path.join(self.dir, hashlib.sha1(
            (src + " ".join(extra)).encode()).hexdigest()[:16] + ".o")
        r = self._run([CXX] + self.flags + list(self.san) + list(extra) +
                      ["-c", src, "-o", obj])
        return src, obj, r.returncode, r.stderr

    def build(self, name, harness, repo_srcs, proto=True, libs=(), extra=(), extra_srcs=(),
              fallback_globs=("mpact/sim/generic/*.cc",)):
        """Returns the path of the linked harness binary."""
        srcs = [os.path.join(VERIF, "harness", harness)]
        srcs += [os.path.join(REPO, s) for s in repo_srcs]
        srcs += list(extra_srcs)
        if proto:
            srcs.append(self.proto())
        objs = self._compile_all(srcs, extra)
        exe = os.path.join(self.dir, name)
        link = ([CXX] + self.san + objs + ["-o", exe] + absl_libs() + list(libs) +
                (["-lprotobuf"] if proto else []) + ["-lpthread"])
        r = self._run(link)
        if r.returncode != 0 and fallback_globs:
            # A refactoring may have moved code between source files: add the rest.
            have = set(srcs)
            more = []
            for g in fallback_globs:
                more += [f for f in sorted(glob.glob(os.path.join(REPO, g))) if f not in have]
            arch = os.path.join(self.dir, name + "_rest.a")
            with cf.ThreadPoolExecutor(NPROC) as ex:
                res = list(ex.map(lambda s: self.compile_one(s, extra), more))
            good = [o for _, o, rc, _ in res if rc == 0]
            if os.path.exists(arch):
                os.unlink(arch)
            if good:
                self._run(["ar", "rcs", arch] + good)
                i = link.index("-o")
                r = self._run(link[:i] + [arch] + link[i:])
        if r.returncode != 0:
            raise CheckError("link of %s failed:\n%s" % (name, r.stderr[-3000:]))
        return exe

    def _compile_all(self, srcs, extra):
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda s: self.compile_one(s, extra), srcs))
        for src, _, rc, err in res:
            if rc != 0:
                raise CheckError("compiling %s failed:\n%s" % (src, err[-3000:]))
        return [o for _, o, _, _ in res]


HARNESS_ENV = dict(os.environ,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:"
                                "allocator_may_return_null=1:handle_abort=1",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")


# --------------------------------------------------------------------------
# Harness protocol: one op per input line, one JSON array per output line.
# --------------------------------------------------------------------------
def _tok(a):
    if isinstance(a, bool):
        return "1" if a else "0"
    if isinstance(a, (list, tuple)):
        return "[" + ",".join(_tok(x) for x in a) + "]"
    if isinstance(a, str):       # harness.h: Text()
        return a.replace(" ", "\x01").replace("\t", "\x02") or "\x03"
    return str(a)


def op_line(op):
    return " ".join(_tok(a) for a in op)


def run_harness(exe, ops, args=(), timeout=300):
    """Runs ops (flat list, resets included); returns (outs, rc, stderr tail)."""
    data = "\n".join(op_line(o) for o in ops) + "\n"
    try:
        r = subprocess.run([exe] + list(args), input=data, capture_output=True, text=True,
                           env=HARNESS_ENV, timeout=timeout)
        out, rc, err = r.stdout, r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        rc, err = -999, "timeout after %ss (non-termination)" % timeout
    outs = []
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    elif rc != 0 and lines:
        lines.pop()  # partial line
    for ln in lines:
        try:
            outs.append(json.loads(ln))
        except ValueError:
            raise CheckError("harness printed a bad line: %r" % ln[:300])
    return outs, rc, err if len(err) < 6000 else err[:3000] + "\n...\n" + err[-3000:]


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
def tla_val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v  # already TLA+ text
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla_val(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
    raise ValueError(v)


class Tlc:
    def __init__(self, work):
        self.work = work
        self.states = 0
        self.transitions = 0
        self.runs = []

    def _write(self, d, name, module, constants, body, cfg):
        os.makedirs(d, exist_ok=True)
        for f in glob.glob(VERIF + "/spec/*.tla"):
            shutil.copy(f, d)
        defs = "\n".join("c_%s == %s" % (k, tla_val(v)) for k, v in constants.items())
        with open(os.path.join(d, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n%s\n====\n" % (name, module, defs, body))
        with open(os.path.join(d, name + ".cfg"), "w") as f:
            for k in constants:
                f.write("CONSTANT %s <- c_%s\n" % (k, k))
            f.write(cfg)

    def run(self, d, name, workers, timeout, simulate=None, heap="4g", dfs=False):
        md = os.path.join(d, "md_" + name)
        shutil.rmtree(md, ignore_errors=True)
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
               "-noTE", "-metadir", md, "-workers", str(workers), "-config", name + ".cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate["num"], "-depth", str(simulate["depth"]),
                    "-seed", str(simulate.get("seed", SEED))]
        cmd += [name + ".tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as e:
            raise CheckError("TLC %s timed out after %ds" % (name, timeout))
        shutil.rmtree(md, ignore_errors=True)
        gen = dist = 0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            gen, dist = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                gen = int(m[-1])
        self.runs.append(dict(name=name, rc=rc, generated=gen, distinct=dist,
                              wall=round(time.time() - t, 1)))
        return rc, out, gen, dist

    def model_check(self, module, constants, invariants=(), properties=(), constraint=None,
                    spec="Spec", tag="", timeout=600, body="", deadlock=False):
        """Exhaustive check of the design properties on the specification."""
        d = os.path.join(self.work, "mc_" + module + tag)
        cfg = "SPECIFICATION %s\n" % spec
        cfg += "".join("INVARIANT %s\n" % i for i in invariants)
        cfg += "".join("PROPERTY %s\n" % i for i in properties)
        if constraint:
            cfg += "CONSTRAINT %s\n" % constraint
        cfg += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
        self._write(d, "MC", module, constants, "LOCAL INSTANCE TLC\n" + body, cfg)
        rc, out, gen, dist = self.run(d, "MC", NPROC, timeout)
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            raise CheckError("the specification %s does not satisfy its own properties "
                             "(or TLC failed):\n%s" % (module, out[-3500:]))
        self.states += dist
        self.transitions += gen
        log("  TLC %s%s: %d distinct states, %d generated; %d invariants, %d action/temporal "
            "properties hold" % (module, tag, dist, gen, len(invariants), len(properties)))
        return dist, gen

    def generate(self, module, constants, maxlen, tag="", timeout=600, simulate=None):
        """Behaviours of the specification, as lists of [op, out] pairs.

        Exhaustive mode: one behaviour per transition of the bounded state graph
        (shortest path to the source state, then the transition).
        Simulation mode: random behaviours of length maxlen.
        """
        d = os.path.join(self.work, ("sim_" if simulate else "gen_") + module + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        of = os.path.join(d, "traces.ndjson")
        emit = ('Len(hist\') = MaxLen => ' if simulate else "")
        body = """
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE CSV
LOCAL INSTANCE Sequences
LOCAL INSTANCE Naturals
VARIABLE hist
MaxLen == %d
OutFile == "%s"
GInit == \\E c \\in Configs : /\\ s = Init0(c)
                            /\\ ev = <<c, ResetOut(c)>>
                            /\\ hist = << <<c, ResetOut(c)>> >>
GNext == \\E op \\in Ops(s) : \\E r \\in Eff(s, op) :
            /\\ s' = r.s
            /\\ ev' = <<op, r.out>>
            /\\ hist' = Append(hist, <<op, r.out>>)
GSpec == GInit /\\ [][GNext]_<<s, ev, hist>>
GView == <<hist[1], s>>
GBound == Len(hist) %s MaxLen
GEmit == %s CSVWrite("%%1$s", <<ToJson(hist')>>, OutFile)
""" % (maxlen, of, "<=" if simulate else "<", emit)
        cfg = ("SPECIFICATION GSpec\nVIEW GView\nCONSTRAINT GBound\nACTION_CONSTRAINT GEmit\n"
               "CHECK_DEADLOCK FALSE\n")
        self._write(d, "Gen", module, constants, body, cfg)
        rc, out, gen, dist = self.run(d, "Gen", 1, timeout, simulate=simulate)
        if rc != 0 or not os.path.exists(of):
            raise CheckError("TLC could not generate behaviours of %s:\n%s" % (module, out[-3000:]))
        if not simulate:
            self.states += dist
            self.transitions += gen
        traces = []
        with open(of) as f:
            for ln in f:
                ln = ln.strip()
                if ln:
                    if ln[0] == '"':
                        ln = json.loads(ln)
                    traces.append(json.loads(ln))
        log("  TLC %s%s: generated %d behaviours (%s)" % (
            module, tag, len(traces),
            "simulation" if simulate else "one per transition of %d states" % dist))
        shutil.rmtree(d, ignore_errors=True)
        return traces

    def validate(self, module, constants, events, invariants=(), tag="", timeout=600):
        """events: flat list of [op, out]; resets start new executions.
        Returns None if accepted, else (index, message) of the first rejected event."""
        d = os.path.join(self.work, "val_" + module + tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        tf = os.path.join(d, "trace.ndjson")
        with open(tf, "w") as f:
            for op, out in events:
                f.write(json.dumps({"op": op, "out": out}) + "\n")
        body = """
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE Sequences
LOCAL INSTANCE Naturals
VARIABLE l
Trace == ndJsonDeserialize("%s")
TInit == /\\ l = 2
         /\\ s = Init0(Trace[1].op)
         /\\ ev = <<Trace[1].op, Trace[1].out>>
         /\\ Trace[1].out = ResetOut(Trace[1].op)
TNext == /\\ l <= Len(Trace)
         /\\ l' = l + 1
         /\\ LET e == Trace[l] IN
              /\\ ev' = <<e.op, e.out>>
              /\\ IF e.op[1] = "reset"
                 THEN s' = Init0(e.op) /\\ e.out = ResetOut(e.op)
                 ELSE \\E r \\in Eff(s, e.op) : r.out = e.out /\\ s' = r.s
TSpec == TInit /\\ [][TNext]_<<s, ev, l>>
TPost == PrintT(<<"CONSUMED", TLCGet("stats").diameter, Len(Trace)>>)
""" % tf
        cfg = "SPECIFICATION TSpec\nPOSTCONDITION TPost\nCHECK_DEADLOCK FALSE\n"
        cfg += "".join("INVARIANT %s\n" % i for i in invariants)
        self._write(d, "Val", module, constants, body, cfg)
        rc, out, gen, dist = self.run(d, "Val", 1, timeout)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
        if m:
            got, want = int(m.group(1)), int(m.group(2))
            if rc != 0 and got == want:
                raise CheckError("TLC failed while validating:\n" + out[-3000:])
            if got == want:
                self.states += dist
                self.transitions += gen
                return None
            return got, "the specification allows no such result here"
        m = re.search(r"Invariant (\w+) is violated", out)
        if m:
            k = re.findall(r"^/\\ l = (\d+)", out, re.M)
            return (int(k[-1]) - 2 if k else 0), "invariant %s is violated" % m.group(1)
        raise CheckError("TLC failed while validating a recorded execution of %s:\n%s" % (
            module, out[-3500:]))


# --------------------------------------------------------------------------
# Conformance
# --------------------------------------------------------------------------
def maximal(traces):
    """Drops behaviours that are prefixes of another one."""
    seen, keep = set(), []
    for t in sorted(traces, key=len, reverse=True):
        keys = []
        h = hashlib.sha1()
        for e in t:
            h.update(json.dumps(e[0]).encode())
            keys.append(h.digest())
        if keys[-1] in seen:
            continue
        seen.update(keys)
        keep.append(t)
    return keep


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", pid + "_" + TIER)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.tlc = Tlc(self.work)
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.traces_validated = 0
        self.events = 0
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = set()

    # -- helpers -----------------------------------------------------------
    def quick(self):
        return TIER != "thorough"

    def pick(self, q, t):
        return q if self.quick() else t

    def replay_file(self, name, obj):
        d = os.path.join(VERIF, ".work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s.json" % (self.pid, name))
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p

    def fail(self, name, what, obj):
        p = self.replay_file(name, dict(property=self.pid, what=what, **obj))
        raise Violation(what, p)

    def _locate(self, traces, outs):
        n = len(outs)
        for t in traces:
            if n < len(t):
                return t, n
            n -= len(t)
        return traces[-1], len(traces[-1]) - 1

    def replay(self, name, exe, traces, args=(), timeout=400):
        """Specification -> implementation: every behaviour is stepped through the
        real code; every observation must equal the specification's."""
        traces = maximal(traces)
        if not traces:
            raise CheckError("no behaviours generated for " + name)
        chunks = [traces[i::NPROC] for i in range(NPROC)]
        chunks = [c for c in chunks if c]

        def one(chunk):
            ops = [e[0] for t in chunk for e in t]
            return run_harness(exe, ops, args, timeout)
        with cf.ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(one, chunks))
        n = 0
        for chunk, (outs, rc, err) in zip(chunks, results):
            k = 0
            prev = None
            for t in chunk:
                for i, (op, exp) in enumerate(t):
                    if k >= len(outs):
                        if i == 0 and prev:  # died while tearing down its predecessor
                            t, i = prev + t[:1], len(prev)
                        self._crash(name, exe, args, t, i, rc, err)
                    if outs[k] != exp:
                        self._mismatch(name, exe, args, t, i, exp, outs[k])
                    k += 1
                n += 1
                prev = t
            if rc != 0:
                self._crash(name, exe, args, chunk[-1], len(chunk[-1]) - 1, rc, err)
        self.traces_validated += n
        ne = sum(len(t) for t in traces)
        self.events += ne
        self.samples.append({"suite": name, "direction": "spec->impl",
                             "behaviour": traces[len(traces) // 2][:12]})
        log("  replay %s: %d behaviours (%d steps) of the specification reproduced by the code"
            % (name, n, ne))

    def _crash(self, name, exe, args, t, i, rc, err):
        # The failing trace on its own first; if it needs its predecessors, report anyway.
        outs, rc2, err2 = run_harness(exe, [e[0] for e in t], args, 120)
        if rc2 == 0 and len(outs) >= len(t):
            bad = [j for j in range(len(t)) if outs[j] != t[j][1] and t[j][1] is not None]
            if bad:
                self._mismatch(name, exe, args, t, bad[0], t[bad[0]][1], outs[bad[0]])
            # a crash that only the long run shows
            err2, rc2 = err, rc
        else:
            i = min(len(outs), len(t) - 1)
        self.fail(name, "the code crashed or hung (rc=%s) at step %d %s" % (rc2, i, t[i][0]),
                  dict(suite=name, trace=t[:i + 1], stderr=err2[-4000:]))

    def _mismatch(self, name, exe, args, t, i, exp, got):
        self.fail(name, "step %d %s: the specification requires %s, the code gave %s" % (
            i, t[i][0], json.dumps(exp), json.dumps(got)),
            dict(suite=name, trace=t[:i + 1], expected=exp, got=got))

    def record(self, name, exe, module, constants, scripts, invariants=(), args=(), timeout=400,
               tag="", per_chunk=1500):
        """Implementation -> specification: scripts (lists of ops, first one a reset) are
        executed by the real code, and TLC must accept the recorded execution."""
        ops = [o for sc in scripts for o in sc]
        outs, rc, err = run_harness(exe, ops, args, timeout)
        if len(outs) < len(ops) or rc != 0:
            fake = [[[o, None] for o in sc] for sc in scripts]
            t, i = self._locate(fake, outs)
            self._crash(name, exe, args, t, i, rc, err)
        events = [[o, r] for o, r in zip(ops, outs)]
        bounds = [0]
        for sc in scripts:
            bounds.append(bounds[-1] + len(sc))
        # Parallel validation: split at execution boundaries.
        nch = min(NPROC, max(1, len(events) // per_chunk))
        groups = [[] for _ in range(nch)]
        for j in range(len(scripts)):
            groups[j % nch].append(j)

        def consts(evs):  # constants may depend on the executions validated together
            return constants(evs) if callable(constants) else constants

        def val(gi):
            evs = [e for j in groups[gi] for e in events[bounds[j]:bounds[j + 1]]]
            return self.tlc.validate(module, consts(evs), evs, invariants,
                                     tag="%s_%s_%d" % (tag, name, gi), timeout=timeout)
        with cf.ThreadPoolExecutor(nch) as ex:
            res = list(ex.map(val, range(nch)))
        for gi, r in enumerate(res):
            if r is None:
                continue
            idx, msg = r
            for j in groups[gi]:
                ln = bounds[j + 1] - bounds[j]
                if idx < ln:
                    tr = events[bounds[j]:bounds[j + 1]]
                    again = self.tlc.validate(module, consts(tr), tr, invariants,
                                              tag=tag + "_re", timeout=timeout)
                    if again is None:
                        raise CheckError("a rejection of %s did not repeat" % name)
                    k = min(again[0], ln - 1)
                    self.fail(name, "recorded step %d %s -> %s: %s" % (
                        k, tr[k][0], json.dumps(tr[k][1]), again[1]),
                        dict(suite=name, trace=tr[:k + 1], module=module))
                idx -= ln
            raise CheckError("cannot locate rejection")
        self.traces_validated += len(scripts)
        self.events += len(events)
        j = len(scripts) // 2
        self.samples.append({"suite": name, "direction": "impl->spec",
                             "execution": events[bounds[j]:bounds[j + 1]][:12]})
        log("  trace validation %s: %d executions (%d events) of the code accepted by %s" % (
            name, len(scripts), len(events), module))

    def known_finding(self, key):
        """True (and prints the line) if key is listed as a known finding."""
        for k in self.known:
            if k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    log("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return True
        return False

    def evidence(self, violations=0):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = dict(property=self.pid, tier="thorough" if TIER == "thorough" else "quick",
                  seed=SEED, level="model_checking",
                  coverage=dict(states=self.tlc.states, transitions=self.tlc.transitions,
                                traces_validated_against_impl=self.traces_validated,
                                events_compared=self.events,
                                tlc_runs=self.tlc.runs,
                                notes=self.notes,
                                samples=self.samples[:8] or ["none"]),
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=violations)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)


def load_known(pid):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"]
                if k["property"] == pid and k.get("status") == "open"]


def main(pid, fn):
    c = Check(pid)
    try:
        fn(c)
    except Violation as v:
        c.evidence(1)
        log("  " + v.what)
        log("VIOLATION property=%s replay=%s" % (pid, v.replay))
        sys.exit(1)
    except CheckError as e:
        log("CHECK ERROR (%s): %s" % (pid, e))
        sys.exit(2)
    c.evidence(0)
    shutil.rmtree(c.work, ignore_errors=True)
    log("OK property=%s  (%.1f s)" % (pid, time.time() - c.t0))
    sys.exit(0)
