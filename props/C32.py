"""Generated ISA decoders (IsaDecode.tla): every opcode becomes the described instruction."""
import json
import os

import isadesc as d


def attach(P, k):
    return "\n".join("// " + n + "\n" + t for n, t in d.text(P, k))


def opnames(P, n):
    """The opcodes of slot n (only used to choose what to decode)."""
    S = P["slots"][n]
    out = []
    for b, _ in S["bases"]:
        out += opnames(P, b)
    dele = {o["n"] for o in S["ops"] if o["k"] == "del"}
    return [x for x in out if x not in dele] + [o["n"] for o in S["ops"] if o["k"] == "op"]


def run(c):
    rng = c.rng
    nok, nbad = c.pick(16, 60), c.pick(80, 240)
    ps = [d.Gen(rng).isa() for _ in range(nok)] + [d.broken(rng, k) for k in range(nbad)]
    exe, gen = d.build_generator(c.work)
    binary, status = d.build_decoders(c, c.work, exe, gen, ps)
    for k, (st, err) in enumerate(status):
        if st == "uncompilable":
            c.fail("decode", "the code generated for description %d does not compile" % k,
                   dict(isa=attach(ps[k], k), stderr=err))
    with open(binary + ".vals", "w") as f:
        f.writelines("%s %d\n" % x for x in d.VALS.items())
    # Design: small descriptions.
    small = sorted(ps[:nok], key=lambda P: len(d.tla(P)))[:c.pick(4, 8)]
    c.tlc.model_check("IsaDecode", dict(Isas="<<" + ",\n".join(map(d.tla, small)) + ">>",
                                        Addrs={0}, Picks=set()),
                      invariants=["Total", "Inherit", "HeldIsUsed", "NonNegative"])
    scripts = []
    for k, P in enumerate(ps):
        sc = [["reset", k + 1], ["build"]]
        if status[k][0] == "ok" and not P.get("broken"):
            words = [(n, e) for n, ix in P["list"] for e in (ix or [0])]
            for n, e in words:
                for o in ["none"] + opnames(P, n):
                    sc.append(["decode", n, o, e, rng.choice([4096, 0x12344, 0x7ffe0])])
            for _ in range(c.pick(6, 20)):
                sc.append(["word", [rng.choice(["none"] + opnames(P, n)) for n, e in words],
                           rng.choice([4096, 0x20480])])
        scripts.append(sc)
    c.notes.append("%d descriptions, %d of them malformed: every opcode of every slot entry and "
                   "%d whole words each" % (len(ps), nbad, c.pick(6, 20)))
    try:
        c.record("decode", binary, "IsaDecode", d.consts_for(ps), scripts, timeout=600,
                 per_chunk=400)
    except d.vlib.Violation as v:
        j = json.load(open(v.replay))
        k = j["trace"][0][0][1] - 1
        j["isa"] = attach(ps[k], k)
        j["broken"] = ps[k].get("broken")
        j["stderr"] = status[k][1]
        json.dump(j, open(v.replay, "w"), indent=1)
        raise
    c.assumptions.append("the grammar is parsed by a stand-in for the ANTLR runtime driven by the "
                         "repository's .g4 file; bundles are not generated (the generator emits no "
                         "bundle definitions)")
