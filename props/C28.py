"""SimpleUart (Uarts.tla)."""
from vlib import *


def scripts(c, n, ln):
    r = c.rng
    out = []
    regs = [0, 0, 0, 4, 4, 8, 12, 12, 16, 20, 24, 28, 32, 36, 0x100, 0xfffc]
    for _ in range(n):
        sc = [["reset", r.randint(0, 2)]]
        for _ in range(ln):
            x = r.random()
            o = r.choice(regs)
            if x < 0.45:
                v = r.choice([65, 10, 0, 255, 128, 127, 3, 131, r.randint(0, 255)])
                if o == 0 and r.random() < 0.2:
                    k = r.choice([1, 2, 2, 3, 8])
                    vs = [r.choice([65, 10, 128, 3, 255]) for _ in range(k)]
                else:
                    vs = [v]
                if o == 12 and r.random() < 0.5:
                    vs = [r.choice([0, 3, 128, 131])]
                sc.append(["st", o, vs])
            elif x < 0.75:
                o = r.choice(regs[:-1])
                sc.append(["ld", o, r.choice([1, 1, 2, 3, 9]), r.choice([0, 0, 1, 2])])
            elif x < 0.8:
                a, z = r.choice([1, 2, 3, 5, 13, 29, 30, 0, 4, 12]), r.choice([1, 2, 3, 4, 8])
                sc.append(["stodd", a, z if a % 4 else r.choice([1, 2, 3, 5])])
            elif x < 0.86:
                a, z = r.choice([1, 2, 3, 5, 13, 29, 30, 0, 28, 12]), r.choice([1, 2, 3, 4, 8])
                sc.append(["ldodd", a, z if a % 4 else r.choice([1, 2, 3, 5]), r.choice([0, 1])])
            elif x < 0.93:
                sc.append(["adv"])
            else:
                sc.append(["text"])
        sc += [["text"], ["adv"], ["adv"]]
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("uart", "uart_h.cc", ["mpact/sim/util/other/simple_uart.cc", G + "data_buffer.cc"],
                  fallback_globs=(G + "*.cc", "mpact/sim/util/other/simple*.cc"))
    act = ["AppendOnly", "NoTextWhileLatched", "LoadsPure"]
    K = dict(Offsets={0, 4, 12, 28, 8}, Values={"<<65>>", "<<131>>", "<<10>>"}, Lats={0, 1}, MaxText=2)
    c.tlc.model_check("Uarts", K, (), act, constraint="MCBound", body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    KG = dict(K, Values={"<<65>>", "<<131>>", "<<10, 67>>"}, Offsets={0, 4, 12, 28}, MaxText=1)
    c.replay("uart-all", exe, c.tlc.generate("Uarts", KG, maxlen=c.pick(4, 5), tag="g"))
    KW = dict(K, Offsets={0, 4, 8, 12, 16, 20, 24, 28, 32, 65532}, Values={"<<65>>", "<<131>>", "<<3>>", "<<10>>", "<<321, 255>>"}, Lats={0, 1, 2}, MaxText=30)
    c.replay("uart-sim", exe, c.tlc.generate("Uarts", KW, maxlen=24, tag="w", simulate=dict(num=c.pick(20, 300), depth=25)))
    c.record("uart", exe, "Uarts", K, scripts(c, c.pick(250, 2500), c.pick(60, 120)))
    c.assumptions.append("only the low byte of the registers is used, values above 255 are written to the transmit buffer only; vector "
                         "accesses are refused by the uart (fatal) and not exercised")
