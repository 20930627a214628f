from vlib import *


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset"]]
        top = r.choice([2, 4, 9, 30])
        for _ in range(ln):
            k = r.random()
            nm = r.choice([0, r.randint(1, top), r.randint(1, top), r.randint(1, top)])
            if k < 0.02:
                sc.append(["clearall"])
            else:
                sc.append([r.choice(["add", "raise", "raise", "hraise", "hraise", "clear", "mask", "unmask",
                                     "ismasked", "msgs"]), nm])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("perr", "program_error_h.cc", ["mpact/sim/generic/program_error.cc"], proto=False)
    inv = ["TypeOk", "InternalUnmaskable", "PendingIffMessages"]
    act = ["OnlyClearLoses", "Frame", "MisuseReported"]
    # the message counter only grows: bound the length of the behaviours
    c.tlc.model_check("ProgramErrors", dict(Names={1, 2, 3}, MaxMsgs=3), inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(6, 8))
    tr = c.tlc.generate("ProgramErrors", dict(Names={1, 2}, MaxMsgs=3), maxlen=c.pick(8, 9))
    c.replay("program-errors", exe, tr)
    c.record("program-errors", exe, "ProgramErrors", dict(Names={1, 2}, MaxMsgs=3),
             scripts(c, c.pick(120, 1000), c.pick(80, 150)), inv)
