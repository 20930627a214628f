from vlib import *
from memlib import *

OPS = ["swap", "add", "sub", "and", "or", "xor", "max", "maxu", "min", "minu"]


def value(r, n):
    k = r.random()
    if k < 0.3:
        return [r.randint(0, 255) for _ in range(n)]
    if k < 0.5:  # near the extremes
        return [r.choice([0, 255, 255])] * (n - 1) + [r.choice([0x7f, 0x80, 0, 255])]
    if k < 0.7:
        v = [r.choice([0, 255])] * n
        v[0] = r.choice([0, 1, 254, 255])
        return v
    if k < 0.85:
        v = [0] * n
        v[r.randrange(n)] = r.choice([1, 128, 127])
        return v
    return [r.choice([0, 1, 127, 128, 254, 255]) for _ in range(n)]


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        kind = r.choice(["atomic", "atagged"])
        gran = 0 if kind == "atomic" else r.choice([8, 16])
        og = r.choice([0, 6, 9] if gran == 16 else [0, 1, 5, 6, 8, 9])
        sc = [["reset", kind, og, r.choice([0, 165]), gran]]
        ac = Acc(r, 0, 48, 1, gran, lats=(0, 0, 1, 2))
        kinds = ["st", "vst", "ld", "vld", "adv"] + (["tst", "tld"] if gran else [])
        w = [2, 2, 0.5, 0.5, 0.5] + ([1.5, 1] if gran else [])
        last = 0
        for _ in range(ln):
            if r.random() < 0.3:
                o = ac.op(r.choices(kinds, w)[0])
                if not o or (o[0] in ("tst", "tld") and o[1] % gran):
                    continue
                sc.append(o)
                continue
            n_ = r.choice([1, 2, 4, 8])
            a = last if r.random() < 0.5 else r.randrange(0, 48, 8)
            a = a - a % 8 + r.randrange(0, 8, n_)
            last = a
            o = r.choices(["ll", "sc", "amo"], [3, 3, 4])[0]
            if o == "amo":
                o = r.choice(OPS)
            v = value(r, n_)
            if r.random() < 0.03:
                v = [1] * r.choice([3, 16])
                a -= a % 8
                if o == "ll":
                    o = "sc"
            sc.append(["amo", o, a, v, r.choice([0, 1, 2, 12])])
        for a in range(0, 48, 8):
            sc.append(["ld", a, 8, 0, 0])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("atomic", "atomic_memory_h.cc",
                  LIBS + [M + "atomic_memory.cc", M + "atomic_tagged_memory.cc", M + "tagged_flat_demand_memory.cc", M + "flat_demand_memory.cc"],
                  fallback_globs=GLOBS)
    inv, act = ["Intact", "Algebra"], ["ScRule", "OnlyLL"]

    def cfg(*a):
        return '<<"reset", "%s", %d, %d, %d>>' % a
    vecs = {"<<<<6>>, <<0, 1, 1>>, 2>>", "<<<<0, 8>>, <<0, 1>>, 4>>", "<<<<12, 4>>, <<1, 1>>, 8>>"}
    K = dict(Cfgs={cfg("atomic", 1, 0, 0), cfg("atagged", 6, 0, 8)}, Addrs={0, 8}, Sizes={1, 16}, Vecs=vecs, Vals={1},
             Keys={0, 12}, TagLists={"<<1>>", "<<1, 1>>"}, AmoOps='{"ll", "sc", "add"}',
             AmoVals={"<<1, 2>>", "<<255, 255, 255, 127>>"})
    allv = {tla_val(v) for v in ([0], [1], [127], [128], [255], [0, 0], [255, 127], [0, 128], [255, 255], [1, 0],
                                 [0, 0, 0, 128], [255, 255, 255, 127], [255, 255, 255, 255], [1, 0, 0, 0], [0, 1, 254, 0],
                                 [255] * 8, [0] * 7 + [128], [255] * 7 + [127], [0, 0, 0, 0, 1, 0, 0, 0], [254, 255, 255, 255, 0, 0, 0, 0])}
    c.tlc.model_check("AtomicMemories", dict(K, Keys={0}), inv, act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    c.tlc.model_check("AtomicMemories", dict(K, Keys={0}, AmoVals=allv, AmoOps="{}", Sizes={1}, Addrs={0}), inv, act, tag="alg",
                      constraint="MCBound", body='MCBound == TLCGet("level") <= 1')
    c.replay("llsc", exe, c.tlc.generate("AtomicMemories", dict(K, Keys={12}, AmoVals={"<<1, 2>>"}), maxlen=c.pick(5, 6), tag="a"))
    # every operation on every pair of corner values (a store by swap first)
    KO = dict(K, Cfgs={cfg("atomic", 0, 0, 0), cfg("atagged", 0, 0, 16)}, Addrs={0}, Sizes=set(), Vecs=set(), TagLists=set(), Keys={1},
              AmoOps='{"swap", "add", "sub", "and", "or", "xor", "max", "maxu", "min", "minu"}', AmoVals=allv)
    c.replay("amo", exe, c.tlc.generate("AtomicMemories", KO, maxlen=4, tag="o"))
    c.record("atomic", exe, "AtomicMemories", K, scripts(c, c.pick(120, 1200), c.pick(70, 150)), ["Intact"])
