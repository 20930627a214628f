from vlib import *
from memlib import *


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        kind = r.choice(["plain", "tagged"])
        og = r.choice([0, 1, 3, 5, 6, 7, 9])
        if kind == "tagged" and og == 3:
            og = 6
        size, gran = r.choice([32, 32, 64] if og != 7 else [32]), 8
        sc = [["reset", kind, og, size, gran]]
        ac = Acc(r, 0, size, 1, gran, lats=(0, 0, 1, 2))
        ops = ["st", "ld", "vst", "vld", "adv"] + (["tst", "tld", "tonly"] if kind == "tagged" else [])
        wide = r.random() < 0.1
        for _ in range(ln):
            x = r.random()
            if x < 0.2:
                lo = r.randint(0, size - 1)
                hi = lo + r.choice([0, 0, 1, 2, 3, 7, 12, -1])
                if wide and r.random() < 0.2:
                    lo, hi = r.choice([(-1000000, hi), (lo, 1000000), (-1000000, 1000000), (1000000, -1000000)])
                elif og == 7 and hi > size - 1:
                    hi = size - 1
                sc.append([r.choice(["setl", "sets"]), lo, hi])
            elif x < 0.28:
                sc.append([r.choice(["clrl", "clrs"]), r.randint(0, size - 1)])
            else:
                o = ac.op(r.choice(ops))
                if o and not (o[0] in ("tst", "tld", "tonly") and o[1] % gran):
                    sc.append(o)
        sc += [["adv"]] * 4
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("watcher", "watcher_h.cc",
                  LIBS + [M + "tagged_flat_demand_memory.cc", M + "flat_demand_memory.cc", M + "memory_watcher.cc",
                          M + "tagged_memory_watcher.cc"], fallback_globs=GLOBS)
    inv, act = ["Disjoint"], ["Transparent", "Watched"]
    cf = {'<<"reset", "plain", 0, 16, 0>>', '<<"reset", "tagged", 6, 16, 8>>'}
    vecs = {"<<<<6>>, <<1, 0, 1>>, 2>>", "<<<<8, 4>>, <<1, 1>>, 4>>", "<<<<4, 7>>, <<0, 1>>, 4>>"}
    K = dict(Cfgs=cf, Addrs={0, 5, 8}, Sizes={1, 4}, Vecs=vecs, Vals={1}, Lats={0}, Keys={0, 12}, TagLists={"<<1>>"},
             Ranges={"<<4, 6>>", "<<8, 8>>", "<<6, 7>>", "<<9, 8>>"})
    c.tlc.model_check("Watchers", dict(K, Keys={12}, Sizes={4}), inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    c.replay("watch-all", exe, c.tlc.generate("Watchers", dict(K, Keys={12}), maxlen=4, tag="a"))
    wide = {'<<"reset", "%s", %d, 32, 8>>' % (k, o) for k in ("plain", "tagged") for o in (0, 5, 7)}
    KW = dict(K, Cfgs=wide, Addrs={0, 3, 8, 16, 24}, Sizes={1, 2, 4, 8},
              Ranges={"<<4, 6>>", "<<8, 8>>", "<<7, 17>>", "<<24, 31>>", "<<20, 23>>", "<<0, 0>>", "<<2, 1>>"})
    c.replay("watch-sim", exe, c.tlc.generate("Watchers", KW, maxlen=14, tag="w", simulate=dict(num=c.pick(25, 500), depth=15)))
    c.record("watch", exe, "Watchers", K, scripts(c, c.pick(150, 1500), c.pick(60, 120)), inv)
