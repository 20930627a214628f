from vlib import *
from memlib import *


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        kind = r.choice(["single", "single", "multi"])
        og = r.choice([0, 3, 5, 6, 7])
        sc = [["reset", kind, og]]
        ifs = r.choice([["m"], ["t"], ["m", "t"], ["m", "t", "a"], ["m", "t", "a"], ["a", "m"]])
        top = 31
        inits, wide = {1} if kind == "single" else set(), r.random() < 0.15
        edges = sorted(r.sample(range(0, top + 1), r.choice([3, 5, 8])))

        def rng():
            if wide and r.random() < 0.4:
                return r.choice([(-1000000, 1000000), (-1000000, r.randint(1, 20)), (r.randint(8, top - 2), 1000000), (1000000, -1000000)])
            lo = r.choice(edges) if r.random() < 0.7 else r.randint(0, top - 1)
            hi = r.choice([lo + r.choice([1, 2, 3, 7, 0, -1, 11]), r.choice(edges) - 1])
            return lo, max(0, min(hi, top))

        def addr(n):
            a = r.choice([x - d for x in edges for d in (0, 1, n, n - 1, n + 1)]) if r.random() < 0.6 else r.randint(0, top)
            return max(0, min(a, top - n + 1))

        for k in range(ln):
            x = r.random()
            if x < (0.6 if k < ln // 3 else 0.1):
                f = r.choice(ifs)
                if kind == "single":
                    sc.append(["add", 1, f, r.randint(1, 4)] + list(rng()) if r.random() < 0.75 else ["def", 1, f, r.choice([0, 1, 5, 5])])
                else:
                    y = r.random()
                    if y < 0.2:
                        i = r.randint(1, 2)
                        inits.add(i)
                        sc.append(["init", r.choice("mta"), i])
                    elif y < 0.45:
                        sc.append(["target", f, r.randint(1, 4)])
                    else:
                        sc.append(["map", r.randint(1, 2), r.randint(1, 4)] + list(rng()))
                continue
            if not inits:
                continue
            i = r.choice(sorted(inits))
            o = r.choice(["ld", "st", "st", "tld", "tst", "tonly", "amo", "vld", "vst", "vld", "vst"])
            if o in ("vld", "vst"):
                el, kk = r.choice([1, 2, 4, 8]), r.choice([1, 2, 3, 4])
                mask = [r.choice([0, 1, 1, 1]) for _ in range(kk)]
                if r.random() < 0.4:
                    as_ = [addr(el * kk)]
                else:
                    base = addr(el)
                    as_ = [min(top - el + 1, max(0, base + r.randint(-2, 2))) if r.random() < 0.6 else addr(el) for _ in range(kk)]
                sc.append([o, i, as_, mask, el])
            elif o == "tonly":
                ng = r.choice([1, 2])
                sc.append([o, i, addr(8 * ng), ng])
            else:
                nb = r.choice([1, 2, 4, 8])
                sc.append([o, i, addr(nb), nb])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("router", "router_h.cc", LIBS + [M + "single_initiator_router.cc", M + "memory_router.cc"], fallback_globs=GLOBS)
    inv, act = ["Disjoint", "NonEmpty"], ["Monotone", "Owned", "VOwned"]
    S, MU = '<<"reset", "single", 3>>', '<<"reset", "multi", 0>>'
    vecs = {"<<<<2>>, <<1, 1>>, 2>>", "<<<<2, 6>>, <<1, 1>>, 2>>", "<<<<2, 9>>, <<1, 0>>, 2>>", "<<<<6>>, <<0, 1>>, 2>>"}
    K = dict(Cfgs={S}, Inits={1, 2}, Targets={1, 2}, Ifs={'"m"', '"t"'}, Ranges={"<<0, 3>>", "<<4, 8>>", "<<3, 5>>", "<<4, 4>>"},
             Addrs={0, 3, 4}, Sizes={2}, Vecs=vecs)
    c.tlc.model_check("Routers", dict(K, Sizes={1, 2}, Addrs={0, 2, 3, 4, 7}), inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(5, 6), tag="s")
    c.tlc.model_check("Routers", dict(K, Cfgs={MU}, Ranges={"<<0, 3>>", "<<3, 5>>"}), inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(6, 8), tag="m")
    KD = dict(K, Ifs={'"m"', '"t"', '"a"'}, Ranges={"<<0, 3>>", "<<4, 8>>", "<<3, 5>>"}, Targets={1}, Addrs={2, 3, 4})
    c.replay("router-all", exe, c.tlc.generate("Routers", KD, maxlen=4, tag="a"))
    c.replay("multi-all", exe, c.tlc.generate("Routers", dict(KD, Cfgs={MU}, Targets={1, 2}, Ranges={"<<2, 3>>"}), maxlen=5, tag="b"))
    KW = dict(K, Cfgs={'<<"reset", "%s", %d>>' % (k, o) for k in ("single", "multi") for o in (0, 5)}, Targets={1, 2, 3},
              Ifs={'"m"', '"t"', '"a"'}, Ranges={"<<0, 3>>", "<<4, 11>>", "<<12, 13>>", "<<16, 31>>", "<<3, 5>>", "<<14, 15>>"},
              Addrs={0, 2, 4, 8, 11, 12, 14}, Sizes={1, 2, 4})
    c.replay("router-sim", exe, c.tlc.generate("Routers", KW, maxlen=14, tag="w", simulate=dict(num=c.pick(15, 300), depth=15)))
    c.record("router", exe, "Routers", K, scripts(c, c.pick(250, 2500), c.pick(60, 120)), inv)
