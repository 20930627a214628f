from vlib import *
G = "mpact/sim/generic/"
SRCS = [G + x for x in ("data_buffer.cc", "register.cc", "state_item_base.cc", "arch_state.cc",
                        "component.cc", "fifo.cc", "program_error.cc", "simple_resource.cc",
                        "resource_bitset.cc")]
W = dict(i8=1, u8=1, i16=2, u16=2, i32=4, u32=4, i64=8, u64=8, b=1)
N = dict(vimm=3, vreg=4, vfifo=4, mreg=6)


def scripts(c, n):
    r = c.rng
    out = []
    for k in ("imm", "immv", "vimm", "reg", "vreg", "mreg", "fifo", "vfifo", "sreg"):
        for t, w in W.items():
            if t == "b":
                continue
            sc = [["reset", k, t, 0 if k == "vimm" else r.randint(0, 1)]]
            ne = N.get(k, 1)
            if w == 1:
                vals = [[x] for x in range(256)]
            else:
                vals = []
                for _ in range(n):
                    m = r.random()
                    if m < 0.4:
                        vals.append([r.randint(0, 255) for _ in range(w)])
                    elif m < 0.8:  # around a power of two, either sign
                        x = (r.choice([1, -1]) * (1 << r.randint(0, 8 * w)) + r.randint(-1, 1)) % (1 << (8 * w))
                        vals.append(list(x.to_bytes(w, "little")))
                    else:
                        vals.append([r.choice([0, 1, 127, 128, 255]) for _ in range(w)])
            for v in vals:
                sc.append(["set", r.randrange(ne), v])
                sc.append(["read", r.randrange(ne) if ne > 1 or k in ("reg", "fifo") else r.randint(0, 9)])
                if k == "sreg":
                    sc.append(["mask", [r.choice([0, 255, r.randint(0, 255)]) for _ in range(w)]])
            out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("operand", "operand_h.cc", SRCS)
    inv = ["NarrowPrefix", "SameBytes", "BoolIsNonZero"]
    base = dict(Kinds={'"%s"' % k for k in ("imm", "immv", "reg", "fifo", "sreg", "lit", "litv", "blit", "wrap")},
                Types={'"%s"' % t for t in W}, Corner={0, 1, 127, 128, 255}, MaxSets=1)
    vec = dict(base, Kinds={'"%s"' % k for k in ("vimm", "vreg", "mreg", "vfifo")},
               Corner=c.pick({0, 128, 255}, {0, 1, 127, 128, 255}))
    c.tlc.model_check("Operands", base, inv)
    for nm, K in (("operand-scalar", base), ("operand-vector", vec)):
        c.replay(nm, exe, c.tlc.generate("Operands", K, maxlen=4), [])
    c.record("operand", exe, "Operands", base, scripts(c, c.pick(60, 1500)), inv)
