from vlib import *
G = "mpact/sim/generic/"
SRCS = [G + x for x in ("complex_resource.cc", "complex_resource_operand.cc", "arch_state.cc", "component.cc", "data_buffer.cc",
                        "program_error.cc", "state_item_base.cc", "fifo.cc", "register.cc", "simple_resource.cc",
                        "resource_bitset.cc", "control_register.cc")]
# The recorded deviations, as the exact histories that show them.
PROBES = {
    "shift": [["reset", 256], ["acq", [200], 4], ["adv", 96], ["free", [0], 4]],
    "mask": [["reset", 234], ["acq", [192], 4], ["free", [0], 4]],
}


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        d = r.choice([1, 7, 63, 64, 64, 65, 100, 127, 128, 128, 192, 234, 256])
        sc = [["reset", d]]
        A = (d + 63) // 64

        def req():
            k = r.random()
            if k < 0.1:
                return list(range(64 * A))
            if k < 0.6:
                return sorted(r.sample(range(64 * A), min(r.randint(1, 6), 64 * A)))
            if k < 0.8:
                b = r.randrange(64 * A)
                return list(range(b, min(64 * A, b + r.randint(1, 40))))
            return sorted({min(max(0, x), 64 * A - 1) for x in (64 * r.randint(0, A) + r.choice([-1, 0, 1]), d - 1, d)})
        for _ in range(ln):
            k = r.random()
            if k < 0.5:
                sc.append([r.choice(["acq", "acq", "rel", "free"]), req(), r.randint(1, A + 1)])
            elif k < 0.75:
                sc.append(["adv", r.choice([1, 1, 2, 3, 17, 31, 63, d, 64, 65, 128, 200, 5 * d])])
            elif k < 0.82:
                b = r.choice([0, 63, 64, d - 1, d, r.randrange(d)])
                sc.append(["range", b, r.choice([b, d - 1, d, 64, 128, r.randrange(d + 1)])])
            elif k < 0.88:
                q = [b for b in req() if b < d] if r.random() < 0.7 else req()
                sc.append(["mask", q, r.choice([0, A, A, A + 1, r.randint(0, A)])])
            else:
                sc.append([r.choice(["ofree", "oacq"])])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("cres", "complex_resource_h.cc", SRCS)
    K = dict(Depths={64, 70, 128}, Reqs="{<<0>>, <<0, 63>>, <<1, 64, 69>>, <<70, 127>>, <<>>}",
             Ranges="{<<0, 0>>, <<3, 1>>, <<60, 64>>, <<0, 127>>, <<64, 128>>, <<0, 69>>, <<5, 70>>}",
             Steps={1, 63, 64, 70}, KnownDefects="{}")
    inv, act = ["InWindow", "MaskInWindow"], ["Persistent", "FreeIsFree"]
    c.tlc.model_check("ComplexResources", K, inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    # The recorded findings: report the ones that are still there.
    known = set()
    for key, probe in PROBES.items():
        outs, rc, err = run_harness(exe, probe)
        r = None
        if rc == 0 and len(outs) == len(probe):
            r = c.tlc.validate("ComplexResources", K, [[o, x] for o, x in zip(probe, outs)], tag="_probe_" + key)
        if r is not None or rc != 0:
            if not c.known_finding(key):
                c.fail("probe-" + key, "step %s of %s: the specification allows no such result" % (r, probe),
                       dict(trace=[[o, x] for o, x in zip(probe, outs)]))
            known.add('"%s"' % key)
    KR = dict(K, KnownDefects="{" + ", ".join(sorted(known)) + "}")
    tr = c.tlc.generate("ComplexResources", K, maxlen=c.pick(5, 6))
    if not known:
        c.replay("complex-resource", exe, tr)
    else:
        # Behaviours that cannot meet a recorded finding are compared step by step; the others
        # are executed and validated against the specification with the recorded deviations.
        def clean(t):
            d = t[0][0][1]
            gap = 0
            for op, _ in t[1:]:
                if op[0] == "adv":
                    gap += op[1]
                elif op[0] in ("acq", "rel", "free", "oacq", "ofree"):
                    if 64 <= gap < d or (op[0] in ("acq", "oacq", "rel") and d % 64):
                        return False
                    gap = 0
            return True
        c.replay("complex-resource", exe, [t for t in tr if clean(t)])
        rest = maximal([t for t in tr if not clean(t)])
        if c.quick():
            c.rng.shuffle(rest)
            rest = rest[:4000]
        c.record("complex-resource-known", exe, "ComplexResources", KR, [[e[0] for e in t] for t in rest])
    c.record("complex-resource", exe, "ComplexResources", KR, scripts(c, c.pick(120, 1200), c.pick(50, 80)))
