from vlib import *


def scripts(c, kind, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        cap = r.choice([0, 1, 1, 2, 3, 5, 9]) if kind != "token" else 2
        pool = 0 if kind != "token" else r.choice([0, 1, 2, 3, 5, 8])
        sc = [["reset", kind, cap, pool]]
        wpush, wpop = r.choice([(5, 4), (7, 3), (3, 5)])
        for _ in range(ln):
            f = r.choice([1, 2])
            o = r.choices(["push", "pop", "front", "read", "reserve", "submit", "advance", "depth"],
                          [wpush, wpop, 1, 1, 1, 3, 3, 0.15])[0]
            if o == "push":
                sc.append([o, f, r.randint(1, 6)])
            elif o in ("pop", "front", "read"):
                sc.append([o, f])
            elif o == "reserve":
                sc.append([o, f, r.choice([1, 1, 2, 3])])
            elif o == "submit":
                sc.append([o, f, r.randint(1, 6), r.choice([0, 1, 1, 2, 3, 6])])
            elif o == "depth":
                sc.append([o, f, r.choice([0, 1, 2, 4, 7])])
            else:
                sc.append([o])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("fifo", "fifo_h.cc", [G + x for x in (
        "fifo.cc", "token_fifo.cc", "fifo_with_notify.cc", "data_buffer.cc", "state_item_base.cc",
        "program_error.cc", "component.cc", "arch_state.cc", "register.cc")])
    K = dict(Kinds={'"plain"', '"notify"', '"token"'}, Caps={0, 1, 2}, Pools={1, 2, 3}, Ids={1, 2}, Lats={0, 1, 2},
             MaxRes=2, MaxFly=1, Depths={1})
    inv = ["TokensNonNegative"]
    act = ["TokensConserved", "WithinCapacity", "InOrder", "NoSilentLoss"]
    c.tlc.model_check("Fifos", K, inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 6))
    KG = dict(K, Ids={1}, Caps={0, 1, 2}, Lats={0, 2}, Depths=set())
    tr = c.tlc.generate("Fifos", KG, maxlen=c.pick(6, 8))
    c.replay("fifo", exe, tr)
    for kind in ("plain", "notify", "token"):
        c.record("fifo-" + kind, exe, "Fifos", K, scripts(c, kind, c.pick(60, 500), c.pick(120, 200)), inv)
