from vlib import *


def scripts(c, n, length):
    r = c.rng
    out = []
    for _ in range(n):
        z = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 31])
        top = r.choice([4, 9, 17, 40, 130, 600])
        sc = [["reset", z]]
        p = r.choice([0.3, 0.5, 0.7])
        # latencies around powers of two are the interesting ones
        for _ in range(length):
            if r.random() < p:
                k = r.choice([r.randint(1, top), 1 << r.randint(0, 9), (1 << r.randint(0, 9)) + 1,
                              max(1, (1 << r.randint(0, 9)) - 1)])
                k = min(k, top)
                re = 0 if r.random() < 0.8 else r.randint(1, top)
                sc.append(["add", k, re])
            else:
                sc.append(["advance"])
        sc += [["advance"]] * r.choice([0, 10, 2 * min(top, 40)])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("delay_line", "delay_line_h.cc", [], proto=False)
    K = dict(Sizes={1, 2, 3}, Lats={1, 2, 4, 5}, ReLats={0, 4}, MaxPending=3,
             MaxAdds=c.pick(3, 4))
    inv = ["ExactDue", "NoDuplicates", "CountsMatch"]
    c.tlc.model_check("DelayLine", K, inv, ["FireExactly", "AddKeeps"],
                      body="MCBound == s.now <= 8", constraint="MCBound")
    KR = dict(K, Sizes={1, 2}, Lats={1, 2, 4}, MaxAdds=3)
    c.tlc.model_check("DelayLineRing", KR, ["PowerOfTwo", "Fits"], ["StepRefines"],
                      body="MCBound == now <= 7", constraint="MCBound")
    KG = dict(Sizes={0, 1, 2, 4}, Lats={1, 2, 3, 4}, ReLats={0, 4}, MaxPending=4, MaxAdds=4)
    tr = c.tlc.generate("DelayLine", KG, maxlen=c.pick(7, 8))
    c.replay("delay-fn", exe, tr, ["fn"])
    c.replay("delay-rec", exe, tr, ["rec"])
    sc = scripts(c, c.pick(60, 400), c.pick(120, 300))
    c.record("delay-fn", exe, "DelayLine", KG, sc, inv, ["fn"])
    sc = scripts(c, c.pick(60, 400), c.pick(120, 300))
    c.record("delay-rec", exe, "DelayLine", KG, sc, inv, ["rec"])
