"""Renode's C interface and its bus accesses (RenodeAgents.tla)."""
from vlib import *

CORES = [[], [(3, "bp"), (5, "user"), (9, "done")], [(4, "semi"), (6, "done")], [(2, "err"), (7, "bp"), (8, "bp")],
         [(1, "user"), (2, "user"), (3, "semi")], [(30, "done")]]
BIG = [[], [(3, "bp"), (8, "user"), (40, "done")], [(4, "semi")], [(1, "user"), (3, "bp"), (7, "user")]]


def scripts(c, n, ln, ncores, big):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset", 1]]
        ids = {}          # slot -> handle
        slots = [1, 2, 3]
        pend = {}
        for _ in range(ln):
            x = r.random()
            k = r.choice(slots)
            core = r.choice([0] + list(range(1, ncores + 1)) * 3)
            nl, rd, wr = r.choice([4, 8, 20]), r.choice([0, 1, 2]), r.choice([0, 1, 2])
            if x < 0.08 or not ids:
                sc.append(["construct", k, core, nl, rd, wr])
                if core:
                    ids[k] = 1
                else:
                    ids.pop(k, None)
            elif x < 0.16:
                q = r.choice(sorted(ids))
                sc.append(["connect", k, q, r.choice([0, 0, 1, 1, 2]), max(core, 1), nl, rd, wr])
                ids[k] = 1
            elif x < 0.22:
                sc += [["drain", k], ["destruct", k]]
            elif x < 0.45:
                sc.append(["step", k, r.choice([0, 1, 1, 2, 3, 5, 9, 20]), r.choice([1, 1, 1, 0])])
            elif x < 0.48:
                sc.append(["?badwhy", k, r.choice([0, 0, 1])])
            elif x < 0.55:
                sc.append(["rdreg", k, r.randint(0, 3)])
            elif x < 0.6:
                sc.append(["wrreg", k, r.randint(0, 3), r.randint(1, 99)])
            elif x < 0.63:
                sc.append(["reginfo", k, r.randint(0, 3)])
            elif x < 0.65:
                sc.append([r.choice(["regsize", "hwreset"]), k])
            elif x < 0.69:
                sc.append(["rdmem", k, r.randint(0, 17), r.randint(0, 18)])
            elif x < 0.73:
                sc.append(["wrmem", k, r.randint(0, 17), [r.randint(0, 255) for _ in range(r.randint(1, 6))]])
            elif x < 0.75:
                sz = r.choice([0, 1, 100, 65535, 65536, 65537, 131072, 200000])
                f = r.choice([1, 1, 1, 0, 2])
                sc.append(["image", k, max(sz, 1) if f == 2 else sz, f])
            elif x < 0.78:
                sc.append(["elf", k, r.randint(0, 1), r.randint(0, 1)])
            elif x < 0.81:
                sc.append(["config", k, r.randint(0, 1), r.randint(1, 3)])
            elif x < 0.84:
                sc.append(["irq", k, r.choice([0, 1, 7, 8, 9]), r.randint(0, 1)])
            elif x < 0.92:
                sc.append(["?load", k, r.randint(0, 40), r.choice([1, 2, 4, 8]), r.choice([0, 0, 1, 2, 3])])
            elif x < 0.95:
                sc.append(["?store", k, r.randint(0, 40), r.choice([1, 2, 4, 8])])
            else:
                sc.append(["?adv", k])
        out.append(resolve(sc))
    return out


def resolve(sc):
    """Ops that need a simulator are only kept when the slot certainly has one; a simulator with pending loads is not destroyed."""
    out, live, idn, seq = [], {}, {}, 0     # handle of a slot; handles are (construct number, delta)
    known = {}                              # handle -> pending latencies
    for o in sc:
        k = o[1] if len(o) > 1 else None
        if o[0] == "construct":
            seq += 1
            if o[2]:
                idn[k] = (seq, 0)
                known[idn[k]] = []
            else:
                idn.pop(k, None)
            out.append(o)
        elif o[0] == "connect":
            if o[2] not in idn:
                continue
            b = idn[o[2]]
            h = (b[0], b[1] + o[3])
            if o[3] and h not in known:
                known[h] = None             # may be another one's id: nothing that needs care is done with it
            elif o[3] == 0 and h not in known:
                known[h] = []
            idn[k] = h
            out.append(o)
        elif o[0] in ("drain", "destruct", "?badwhy", "?load", "?store", "?adv"):
            h = idn.get(k)
            p = known.get(h) if h else None
            if o[0] == "drain":
                if p:
                    for _ in range(max(p)):
                        out.append(["adv", k])
                    p.clear()
            elif o[0] == "destruct":
                if h and p is None:
                    continue
                out.append(o)
                if h:
                    known.pop(h, None)
            elif p is not None:
                out.append([o[0][1:]] + o[1:])
                if o[0] == "?load" and o[4]:
                    p.append(o[4])
                if o[0] == "?adv":
                    p[:] = [x - 1 for x in p if x > 1]
        else:
            out.append(o)
    return out


def run(c):
    b = Builder(c.work)
    R = "mpact/sim/util/renode/"
    G = "mpact/sim/generic/"
    exe = b.build("agent", "renode_agent_h.cc", [R + "renode_mpact.cc", R + "renode_memory_access.cc", G + "data_buffer.cc"],
                  fallback_globs=(G + "*.cc",))
    inv, act = ["NoPast"], ["Isolation", "ExactSteps"]

    def consts(cores, ids):
        return dict(Slots={1, 2, 3}, Cores="<<%s>>" % ", ".join("{%s}" % ", ".join('<<%d, "%s">>' % x for x in k) for k in cores),
                    Ids=ids, Nums={1}, Values={5}, Lats={0, 2}, Lens={8, 20}, Tags={0, 1, 2})

    def args(cores, scale):
        return [os.path.join(c.work, "img"), str(scale)] + [";".join("%d,%s" % x for x in k) or ";" for k in cores]
    KM = dict(consts(CORES[1:3], {0, 1}), Slots={1, 2}, Nums={4}, Lens={8}, Tags=c.pick({1}, {0, 1}), Lats={0})
    c.tlc.model_check("RenodeAgents", KM, inv, act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    KG = dict(consts(CORES[1:3], {0}), Slots={1}, Nums={0, 2, 4}, Lats={0, 1}, Tags={0, 2})
    tr = maximal(c.tlc.generate("RenodeAgents", KG, maxlen=c.pick(4, 5), tag="g"))
    c.rng.shuffle(tr)
    wide = "-40..80"
    c.record("agent-all", exe, "RenodeAgents", dict(consts(CORES[1:3], wide)), [[e[0] for e in t] for t in tr[:c.pick(2500, 30000)]], inv,
             args(CORES[1:3], 1))
    c.record("agent", exe, "RenodeAgents", consts(CORES, wide), scripts(c, c.pick(250, 2500), c.pick(60, 100), len(CORES), False), inv,
             args(CORES, 1))
    c.record("agent-long", exe, "RenodeAgents", consts(BIG, wide), scripts(c, c.pick(120, 1000), c.pick(40, 60), len(BIG), True), inv,
             args(BIG, 2 ** 30))
    c.assumptions.append("the simulated core answers as CoreDebugInterface documents; a simulator is not destroyed while it has loads in "
                         "flight; which unused id a new simulator gets is left open")
