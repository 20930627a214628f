"""Run control shared by Renode and the command line (RunControl.tla)."""
from vlib import *

CORES = [((), 1000), ((3,), 6), ((2, 5), 1000), ((), 4), ((1, 2, 3, 4, 6), 9), ((7,), 12)]
KINDS = list(range(14))


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset", r.randint(1, len(CORES)), r.choice([0, 1, 1])]]
        if r.random() < 0.7:
            sc.append(["conn", 1])
        style = r.choice(["mix", "mix", "steps", "runs"])
        for _ in range(ln):
            x = r.random()
            if x < 0.5:
                sc.append(["tick"])
            elif x < 0.7:
                sc.append(["renode", r.choice([0, 1, 2, 3, 4, 7])])
            elif x < 0.92:
                k = r.random()
                if k < (0.6 if style == "steps" else 0.3):
                    sc.append(["step", r.choice([0, 1, 2, 3, 5, 9])])
                elif k < (0.75 if style == "steps" else 0.7):
                    sc.append(["run"])
                else:
                    sc.append(["query", r.choice(KINDS)])
            elif x < 0.98:
                sc.append(["halt"])
            else:
                sc.append(["conn", r.choice([0, 1])])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    Rn = "mpact/sim/util/renode/"
    exe = b.build("rc", "run_control_h.cc", [Rn + "renode_cli_top.cc", Rn + "cli_forwarder.cc"],
                  extra=["-include", VERIF + "/shim/sched/sched_mutex.h"],
                  fallback_globs=("mpact/sim/generic/*.cc", Rn + "renode_cli*.cc"))
    core = lambda p: "<<%s, %d>>" % (tla_val(set(p[0])), p[1])
    K = dict(Cores=[core(p) for p in CORES], Nums={0, 1, 2, 3}, Kinds={0}, MaxPos=100)
    inv = ["Budget", "OnlyInQuantum", "NoStuck"]
    act = ["RenodeYields", "Exact", "Undisturbed"]
    KM = dict(K, Cores=[core(p) for p in [((2,), 5), ((), 3), ((1, 3), 9)]], MaxPos=c.pick(6, 9))
    c.tlc.model_check("RunControl", KM, inv, act, constraint="MCBound",
                      body="MCBound == s.pos <= %d" % c.pick(7, 10))
    args = lambda seed: [str(seed)] + [",".join(map(str, p[0])) + ":%d" % p[1] for p in CORES]
    KG = dict(K, Cores=K["Cores"][:4], Nums={1, 2}, MaxPos=5)
    tr = maximal(c.tlc.generate("RunControl", KG, maxlen=c.pick(7, 9)))
    c.rng.shuffle(tr)
    c.record("run-control-all", exe, "RunControl", K, [[e[0] for e in t] for t in tr[:c.pick(4000, 40000)]],
             inv, args(1))
    for k in range(c.pick(2, 8)):
        c.record("run-control", exe, "RunControl", K, scripts(c, c.pick(150, 800), c.pick(80, 160)), inv,
                 args(c.rng.randint(2, 10 ** 6)))
    c.assumptions.append("the core answers Step as CoreDebugInterface documents; calls of one client are "
                         "sequential; absl::Mutex is replaced by a scheduler with the same interface")
