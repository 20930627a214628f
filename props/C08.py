from vlib import *


def scripts(c, n, ln, top):
    r = c.rng
    out = []
    for _ in range(n):
        e = r.choice([0, 1, 2, 3, 4, 5, 8, 16, 17])
        inc = r.choice([1, 2, 4, 4, 8])
        sc = [["reset", e, inc]]
        span = inc * max(1, e) * 4
        lo = r.choice([0, max(0, top - span), max(0, top - span)])

        def ad():
            a = lo + r.randrange(span)
            if r.random() < 0.75:
                a -= a % inc
            return min(a, top)
        pool = [ad() for _ in range(r.choice([3, 6, 12]))]
        nheld = 0
        for _ in range(ln):
            o = r.choices(["get", "inv", "range", "all", "release", "destroy", "nodec"],
                          [10, 3, 3, 0.3, 2, 0.1, 0.2])[0]
            if o == "get":
                k = 1 if r.random() < 0.25 and nheld < 12 else 0
                nheld += k
                sc.append([o, r.choice(pool), k])
            elif o in ("inv", "nodec"):
                sc.append([o, r.choice(pool)])
            elif o == "range":
                x, y = ad(), ad()
                if r.random() < 0.85:
                    x, y = min(x, y), max(x, y)
                if r.random() < 0.3:
                    x = r.choice(pool)
                if r.random() < 0.3:
                    y = r.choice(pool) + r.choice([0, 1])
                if r.random() < 0.1:
                    x, y = 0, top
                sc.append([o, x, min(y, top)])
            else:
                if o == "release":
                    nheld = max(0, nheld - 1)
                sc.append([o])
        out.append(sc)
    for bad in ((4, 0), (4, 3), (8, 6), (1, 12)):
        out.append([["reset", bad[0], bad[1]]])
    return out


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("dc", "decode_cache_h.cc", [G + "decode_cache.cc", G + "instruction.cc"])
    inv = ["Placed", "OnePerAddress", "HeldAlive"]
    act = ["InvalidatesExactly", "LookupLocal", "NoResurrection"]
    K = dict(Geoms={"<<1, 2>>", "<<2, 1>>", "<<2, 4>>", "<<3, 2>>", "<<2, 3>>", "<<2, 0>>"}, Addrs={0, 4, 8, 9},
             Bounds={0, 1, 4, 5, 9, 12}, MaxHeld=2, MaxGen=c.pick(3, 4))
    c.tlc.model_check("DecodeCaches", dict(K, Geoms={"<<1, 2>>", "<<2, 4>>", "<<3, 2>>"}, Bounds={0, 5, 9}), inv, act)
    tr = c.tlc.generate("DecodeCaches", K, maxlen=c.pick(6, 8))
    c.replay("decode-cache", exe, tr, ["0x1000"])
    # near the top of the address space: spec address 65535 is the last byte
    c.replay("decode-cache-high", exe, tr, ["0xffffffffffff0000"])
    c.record("decode-cache", exe, "DecodeCaches", K, scripts(c, c.pick(120, 900), c.pick(80, 150), 65535), inv,
             ["0xffffffffffff0000"])
    c.record("decode-cache-low", exe, "DecodeCaches", K, scripts(c, c.pick(40, 300), c.pick(80, 150), 1 << 30), inv,
             ["0"], tag="low")
    # an instruction every page: a geometry whose address span does not fit 32 bits
    big = []
    for e, inc in ((1 << 17, 1 << 15), (1 << 12, 1 << 20)):
        sc = [["reset", e, inc]]
        for _ in range(4):
            sc.append(["get", c.rng.randrange(1 << 10) << 20, 0])
        sc += [["all"]]
        big.append(sc)
    outs, rc, err = run_harness(exe, [o for sc in big for o in sc], ["0xffffffff80000000"])
    if rc != 0:
        c.fail("decode-cache-big", "the code crashed (rc=%s) on a large geometry" % rc,
               dict(scripts=big, stderr=err[-3000:]))
