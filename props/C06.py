from vlib import *
G = "mpact/sim/generic/"


def bit_scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset"]]
        top = r.choice([3, 64, 130, 300, 1000])

        def pos():
            return r.choice([r.randrange(top), max(0, 64 * r.randrange(top // 64 + 1) + r.choice([-1, 0, 1]))])
        for _ in range(ln):
            o = r.choice(["set"] * 6 + ["or", "andnot", "assign", "copy", "move", "resize", "new", "next", "next"])
            i = r.randint(1, 3)
            if o in ("set", "next"):
                sc.append([o, i, pos()])
            elif o in ("resize", "new"):
                sc.append([o, i, pos()])
            else:
                sc.append([o, i, r.randint(1, 3)])
        out.append(sc)
    return out


def pool_scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        w = r.choice([1, 2, 5, 63, 64, 65, 128, 129, 200])
        sc = [["reset", w]]
        names = max(2, int(w * r.choice([0.5, 1, 1.2])))
        known = []
        nsets = 0

        def add(x):
            if x not in known and len(known) < w:
                known.append(x)
        fill = r.random() < 0.6
        if fill:
            for x in range(min(names, w)):
                sc.append([r.choice(["add", "getadd"]), x])
                add(x)
        for _ in range(ln):
            k = r.random()
            x = r.choice(known) if known and r.random() < 0.5 else r.randrange(names)
            if k < 0.15:
                o = r.choice(["add", "getadd", "get"])
                sc.append([o, x])
                if o != "get":
                    add(x)
            elif k < 0.18:
                sc.append(["at", r.randrange(w + 2)])
            elif k < 0.25 and nsets < 6:
                sc.append(["newset"])
                nsets += 1
            elif nsets and k < 0.45:
                o = r.choice(["sadd", "sadd", "saddp"])
                sc.append([o, r.randint(1, nsets), x])
                if o == "sadd":
                    add(x)
            elif nsets and k < 0.47:
                sc.append(["sforeign", r.randint(1, nsets)])
            elif nsets and k < 0.58:
                sc.append([r.choice(["sacq", "srel"]), r.randint(1, nsets)])
            elif known and k < 0.7:
                sc.append([r.choice(["racq", "rrel"]), r.choice(known)])
            elif nsets and k < 0.85:
                sc.append([r.choice(["oacq", "oacq", "orel", "orel2"]), r.randint(1, nsets),
                           r.choice([0, 1, 2, 3, 4, 5, 9])])
            else:
                sc.append(["adv"])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("res", "resource_h.cc", [G + "resource_bitset.cc", G + "simple_resource.cc"], proto=False)
    KB = dict(Bits={0, 63, 64, 130}, Sizes={0, 1, 64, 100}, MaxCard=2)
    c.tlc.model_check("BitSets", dict(KB, MaxCard=c.pick(2, 3)), ["NextIsSearch"], ["NoInvention", "Frame"], constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 6))
    c.replay("bitset", exe, c.tlc.generate("BitSets", KB, maxlen=c.pick(6, 8)), ["bits"])
    c.record("bitset", exe, "BitSets", KB, bit_scripts(c, c.pick(120, 1000), 80), ["NextIsSearch"], ["bits"])
    KP = dict(Widths={1, 2}, Names={1, 2, 3}, MaxSets=2, Lats={0, 1, 2}, MaxPend=2)
    inv, act = ["TypeOk", "UniqueNames"], ["StableIndex", "OnlyReleased", "OnlyAcquired"]
    c.tlc.model_check("ResourcePools", KP, inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(6, 8))
    tr = c.tlc.generate("ResourcePools", dict(KP, Names={1, 2}, MaxSets=1, Lats={0, 1, 2}), maxlen=c.pick(7, 9))
    c.replay("pool", exe, tr, ["pool"])
    c.record("pool", exe, "ResourcePools", KP, pool_scripts(c, c.pick(80, 600), 100), inv, ["pool"])
