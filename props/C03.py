from vlib import *
G = "mpact/sim/generic/"
SRCS = [G + x for x in ("data_buffer.cc", "register.cc", "control_register.cc", "state_item_base.cc",
                        "arch_state.cc", "component.cc", "fifo.cc", "program_error.cc",
                        "simple_resource.cc", "resource_bitset.cc")]


def scripts(c, n, length, lines, shared):
    r = c.rng
    out = []
    for _ in range(n):
        top = r.choice([2, 3, 5, 12, 40, 40, 600])
        sc = [["reset"]]
        slots = {1: None, 2: None}
        busy = None

        def ln():
            return r.choice([1, 2]) if lines else 1
        for _ in range(length):
            k = r.random()
            d = r.choice("aaabbrrcsn")
            lat = r.choice([0, 0, 1, 2, r.randint(1, top)])
            v = r.randint(0, 255)
            free = [x for x in slots if slots[x] is None]
            used = [x for x in slots if slots[x] is not None]
            if k < 0.3:
                sc.append(["w", d, lat, v, r.randint(0, 4) if d in "abrc" else r.randint(0, 3), 0, ln()])
            elif k < 0.4 and free:
                j = r.choice(free)
                slots[j] = "small" if d == "c" else "big"
                sc.append(["w", d, lat, v, 0, j, ln()])
            elif k < 0.5 and used:
                j = r.choice(used)
                if not shared:
                    d = r.choice("c") if slots[j] == "small" else r.choice("abrsn")
                sc.append(["resub", j, d, lat, ln()])
            elif k < 0.58 and used:
                j = r.choice(used)
                slots[j] = None
                sc.append(["drop", j])
            elif k < 0.63 and used:
                sc.append(["poke", r.choice(used), v])
            elif k < 0.66:
                sc.append(["self", r.choice("abr")])
            elif k < 0.7:
                sc.append(["fn", r.randint(1, top)])
            elif k < 0.73:
                sc.append(["acq"])
            else:
                sc.append(["adv"])
        sc += [["adv"]] * (600 if top == 600 and r.random() < 0.5 else r.choice([0, 5, 45]))
        out.append(sc)
    return out


def status_scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        w = r.choice([8, 16, 32, 64])
        sc = [["reset", w, r.randint(0, 1)]]
        for i in range(w):
            if r.random() < 0.5:
                sc.append(["wire", i, r.randint(0, 9)])
        for _ in range(ln):
            o = r.choice(["wire", "cond", "cond", "cond", "read", "readm", "readm", "as", "write"])
            if o == "wire":
                sc.append([o, r.randint(0, w - 1), r.randint(0, 9)])
            elif o == "cond":
                sc.append([o, r.randint(0, 9)])
            elif o == "readm":
                p = r.random()
                sc.append([o, [i for i in range(w) if r.random() < p]])
            elif o == "as":
                sc.append([o, r.choice([0, 8, 16, 32, 64])])
            else:
                sc.append([o])
        out.append(sc)
    return out


def status(c, b):
    exe = b.build("status", "status_register_h.cc", SRCS)
    K = dict(Widths={8, 64}, Pos={0, 1}, Conds={0, 1}, Masks={"<<>>"}, Types={0, 8})
    act = ["ReadsPure", "BitIffCondition", "MaskSelects"]
    c.tlc.model_check("StatusRegs", K, [], act, constraint="MCBound", tag="_s",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(6, 8))
    KG = dict(Widths={8, 16, 32, 64}, Pos={0}, Conds={0}, Masks={"<<>>"}, Types={0, 8, 16, 32, 64})
    tr = c.tlc.generate("StatusRegs", KG, maxlen=c.pick(6, 8), tag="_s")
    c.replay("status-register", exe, tr)
    c.record("status-register", exe, "StatusRegs", KG, status_scripts(c, c.pick(80, 500), 60))


def run(c):
    b = Builder(c.work)
    exe = b.build("reg", "register_h.cc", SRCS)
    K = dict(Lats={0, 1, 2}, Vals={1, 2}, Lines={1}, Slots={1}, Hows={0, 4}, MaxFly=2)
    inv = ["LiveIffReferenced", "RegistersHaveValues", "SlotsAlive", "FlyAlive"]
    act = ["OnlyDueWrites", "ArrivesOnTime", "ReleaseOnWrite"]
    KM = dict(K, Vals={1}, Hows={0}) if c.quick() else K
    c.tlc.model_check("Registers", KM, inv, act, tag="_mc", timeout=900,
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 6),
                      constraint="MCBound")
    KG = dict(Lats={0, 2}, Vals={1}, Lines={1}, Slots={1}, Hows={0, 4}, MaxFly=2)
    tr = c.tlc.generate("Registers", KG, maxlen=c.pick(5, 6))
    for m in ("u16", "u32", "u64"):
        c.replay("register-" + m, exe, tr, [m])
    KS = dict(K, Slots={1, 2}, Hows={0, 1, 2, 3, 4}, MaxFly=4, Vals={1, 2, 3}, Lats={0, 1, 2, 3})
    for m, n in (("u16", 40), ("u32", 40), ("u64", 30), ("v4", 40), ("m6", 40)):
        sc = scripts(c, c.pick(n, 6 * n), c.pick(80, 150), True, m[0] == "u")
        c.record("register-" + m, exe, "Registers", KS, sc, inv, [m])
    status(c, b)
