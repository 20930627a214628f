from vlib import *
from memlib import *


def conf(r, valid=0.85):
    size = r.choice([64, 128, 256, 512, 1024, 2048])
    line = r.choice([4, 8, 16, 32, 64])
    n = max(1, size // line)
    ways = r.choice([x for x in (0, 1, 1, 2, 2, 4, 8, 16, 32) if x <= n])
    mode, ranges = r.choice([0, 0, 1, 2]), []
    if mode:
        e = sorted(r.sample(range(0, 512), 2 * r.choice([1, 2, 3])))
        ranges = e
    if r.random() > valid:
        x = r.randint(0, 4)
        if x == 0: size = r.choice([96, 0, 3, 1000, line // 2])
        if x == 1: line = r.choice([0, 1, 2, 12, 33])
        if x == 2: ways = r.choice([3, 6, 2 * n, 5])
        if x == 3: mode, ranges = 1, [200, 100]
        if x == 4: line = 2 * size
    return [size, line, ways, r.choice([0, 1]), mode, ranges]


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        kind = r.choice(["plain", "tagged", "settag", "none"])
        k = conf(r, 2)
        sc = [["reset", kind, r.randint(0, 4), r.randint(0, 3)] + k]
        hot = r.choice([64, 256, 600, 2048])
        ac = Acc(r, 0, hot, 1, 8, lats=(0, 0, 1, 2))
        # few blocks that compete for few sets
        pts = [r.randrange(0, 4096, r.choice([4, 8, 64, 256])) for _ in range(r.choice([3, 6, 12]))]
        ops = ["st", "ld", "vst", "vld", "adv"] + (["tst", "tld", "tonly"] if kind != "plain" else [])
        tick = r.choice([0.95, 0.95, 0.5])
        for _ in range(ln):
            if r.random() < tick:
                sc.append(["cyc", r.choice([1, 1, 2, 5])])
            x = r.random()
            if x < 0.012:
                sc.append(["conf"] + conf(r))
            elif x < 0.025:
                sc.append(["badconf", r.randint(0, 40)])
            else:
                o = ac.op(r.choice(ops))
                if o is None or (o[0] in ("tst", "tld", "tonly") and o[1] % 8):
                    continue
                if o[0] != "adv" and r.random() < 0.6 and isinstance(o[1], int):
                    o[1] = r.choice(pts)
                    if o[0] in ("tst", "tld", "tonly"):
                        o[1] &= ~7
                sc.append(o)
        sc += [["adv"]] * 4
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("cache", "cache_h.cc", LIBS + [M + "cache.cc", M + "tagged_flat_demand_memory.cc", M + "flat_demand_memory.cc"],
                  fallback_globs=GLOBS)
    inv, act = ["Placement"], ["Accounting", "Transparent", "EvictOldest", "NoLostDirty"]
    cf = {'<<"reset", "plain", 0, 0, 32, 4, 2, %d, %d, %s>>' % x for x in ((1, 0, "<<>>"), (0, 1, "<<0, 17>>"))} | {
        '<<"reset", "tagged", 1, 1, 32, 16, 1, 1, 2, <<40, 47>>>>', '<<"reset", "none", 0, 0, 16, 4, 0, 0, 0, <<>>>>'}
    vecs = {"<<<<4>>, <<1, 0, 1>>, 4>>", "<<<<8, 24>>, <<1, 1>>, 4>>"}
    K = dict(Cfgs=cf, Confs=set(), Addrs={0, 16, 32, 46}, Sizes={4}, Vecs=vecs, Vals={1}, Lats={0}, Keys={12}, TagLists={"<<1>>"}, Space=64)
    c.tlc.model_check("Caches", dict(K, Addrs={0, 16, 32}), inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 6))
    cfs = {"<<64, 16, 4, 0, 1, <<16, 31>>>>", "<<64, 16, 8, 1, 0, <<>>>>", "<<48, 16, 1, 1, 0, <<>>>>"}
    c.replay("cache-all", exe, c.tlc.generate("Caches", dict(K, Confs=cfs, Lats={0, 1}, Keys={0, 12}), maxlen=4, tag="a"))
    KW = dict(K, Confs=cfs, Addrs={0, 3, 8, 16, 30, 32, 64, 96}, Sizes={1, 4, 8}, Space=128, Cfgs={
        '<<"reset", "%s", %d, %d, %s>>' % (k, o, y, f) for k in ("plain", "tagged") for o, y in ((0, 0), (3, 1), (4, 2))
        for f in ("32, 8, 2, 1, 0, <<>>", "32, 8, 0, 1, 0, <<>>", "64, 16, 1, 0, 2, <<60, 70>>")})
    c.replay("cache-sim", exe, c.tlc.generate("Caches", KW, maxlen=16, tag="w", simulate=dict(num=c.pick(25, 500), depth=17)))
    c.record("cache", exe, "Caches", K, scripts(c, c.pick(110, 1200), c.pick(80, 160)), inv)
