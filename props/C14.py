from vlib import *
from memlib import *


def scripts(c, cfgs, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        kind, unit, og, lo, size, fill, gran = r.choice(cfgs)
        sc = [["reset", kind, unit, og, lo, size, fill, gran]]
        hi = min(size, (32 if og == 7 else 64) // unit)
        if hi <= lo:
            continue
        ac = Acc(r, lo, hi, unit, gran)
        for _ in range(ln):
            o = ac.op(r.choices(["st", "ld", "vst", "vld", "tst", "tld", "tonly", "adv"], [3, 2, 4, 2, 9, 5, 2, 2])[0])
            if o:
                sc.append(o)
        sc += [["adv"]] * 10
        gu = max(1, gran // unit)
        for a in range(lo + (-lo % gu), hi - gu + 1, gu):
            if (a * unit) % gran == 0 and a + -(-gran // unit) <= hi and gran >= unit:
                sc.append(["tld", a, 1, 0, 0])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("tagged", "tagged_memory_h.cc",
                  LIBS + [M + "tagged_flat_demand_memory.cc", M + "flat_demand_memory.cc", M + "tagged_to_untagged_memory_transactor.cc"],
                  fallback_globs=GLOBS)
    inv, act = ["InBounds"], ["TagRule", "DataRule", "LoadsPure"]

    def cfg(*a):
        return '<<"reset", "%s", %d, %d, %d, %d, %d, %d>>' % a
    vecs = {"<<<<6>>, <<1, 0, 1>>, 2>>", "<<<<7>>, <<0, 1>>, 4>>", "<<<<4, 12>>, <<0, 1>>, 4>>", "<<<<6, 1>>, <<1, 1>>, 8>>",
            "<<<<0>>, <<1, 1>>, 8>>"}
    tl = {"<<1>>", "<<0>>", "<<1, 1>>", "<<1, 0>>"}
    K = dict(Cfgs={cfg("tagged", 1, 0, 0, 24, 0, 8), cfg("tagged", 4, 1, 0, 16, 3, 16), cfg("trans", 1, 6, 0, 24, 0, 8)},
             Addrs={0, 4, 7, 8, 16}, Sizes={1, 2, 4, 16}, Vecs=vecs, Vals={1}, Lats={0, 1}, Keys={0, 12}, TagLists=tl)
    c.tlc.model_check("TaggedMemories", dict(K, Lats={1}, Keys={12}), inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(3, 4))
    KD = dict(K, Lats={0}, Keys={0, 12})
    c.replay("tagged-all", exe, c.tlc.generate("TaggedMemories", KD, maxlen=4, tag="a"))
    wide = {cfg("tagged", u, o, l, 24, f, g) for u in (1, 2, 4) for o in (0, 8, 9) for l in (0, 3) for f in (0, 255) for g in (8, 16)}
    KW = dict(K, Cfgs=wide, Addrs={0, 2, 4, 6, 7, 8, 12, 16, 20}, Sizes={1, 2, 3, 4, 8, 16, 24})
    c.replay("tagged-sim", exe, c.tlc.generate("TaggedMemories", KW, maxlen=12, tag="w",
                                               simulate=dict(num=c.pick(25, 500), depth=13)))
    # lo = 3, size 45: ends inside granules
    cfgs = [("tagged", u, o, l, z, f, g) for u in (1, 1, 1, 2, 4) for o in (0, 6, 7, 9) for l in (0, 3) for z in (24, 45, 64)
            for f in (0, 165) for g in (4, 8, 16, 32) if g >= u]
    cfgs += [("tagged", 1, o, l, 1000000000, 0, g) for o in (0, 6, 7, 9) for l in (0, 3) for g in (8, 16)]
    cfgs += [("tagged", 1, o, 0, 64, 0, g) for o in (1, 5, 8) for g in (4, 8)] * 4
    cfgs += [("trans", u, 1, 0, 45, 9, g) for u in (1, 4) for g in (8, 16)] * 3
    c.record("tagged", exe, "TaggedMemories", K, scripts(c, cfgs, c.pick(140, 1400), c.pick(60, 120)), inv)
