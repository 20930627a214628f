"""Generated field extractors, inserters and opcode encodings (InstWord.tla)."""
import bindec as b


def names(F):
    return [(x[0], x[3]) for x in F["fields"]] + [(x[0], 1) for x in F["ovls"]]


def script(rng, P, k, n):
    sc = [["reset", k + 1], ["build"]]
    W = P["w"]
    fs = [f for f in P["fmts"] if f != "Sub"]
    sub = {a for F in P["fmts"].values() for a in F.get("sub", {})}
    others = sorted({x[0] for f in fs for x in names(P["fmts"][f])} - sub)
    for _ in range(n):
        sc.append(["set", b.limbs(rng.choice([0, (1 << W) - 1] + [rng.getrandbits(W)] * 6))])
        for _ in range(3):
            f = rng.choice(fs)
            F = P["fmts"][f]
            nm, rep = rng.choice(names(F))
            x = rng.randrange(rep)
            if rng.random() < 0.2 and rep == 1:
                nm = rng.choice(others)
            if rng.random() < 0.5:
                w = b.width(F, nm) if b.positions(F, nm) is not None else 4
                v = rng.choice([0, (1 << w) - 1, rng.getrandbits(w), rng.getrandbits(w)])
                if rng.random() < 0.15:
                    v = rng.getrandbits(W)
                sc.append(["ins", f, nm, x, b.limbs(v)])
            sc.append(["ext", f, nm, x])
        if rng.random() < 0.3:
            sc.append(["decode"])
    for I in P["insts"]:
        if b.sat(P["fmts"][I["fmt"]], I["cons"], b.encoding(P, I)):
            sc += [["enc", I["n"]], ["decode"]]
    return sc


def run(c):
    rng = c.rng
    ps = [b.prog_formats(rng, W) for W in [8, 8, 8, 7, 10, 16, 16, 24, 32, 32, 32, 48, 64, 64, 33]
          * c.pick(3, 9)]
    exe, gen = b.build_generator(c.work)
    binary, status = b.build_decoders(c, c.work, exe, gen, ps)
    for k, (st, err) in enumerate(status):
        if st == "uncompilable":
            c.fail("fields", "the code generated for description %d does not compile" % k,
                   dict(bin_fmt=b.text(ps[k], k), stderr=err))
    small = [P for P in ps if P["w"] <= 8][:c.pick(1, 2)]
    c.tlc.model_check("InstWord", dict(Progs=b.tla_progs(small), WordSet=
                      "{<<k, 0, 0, 0>> : k \\in {0, 170, 255}}",
                      ValSet="{<<k, 0, 0, 0>> : k \\in {0, 5, 254}}"),
                      invariants=["InRange", "Deterministic", "EncDecodes"],
                      properties=["InsertExtract"], constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    scripts = [script(rng, P, k, c.pick(25, 250)) if status[k][0] == "ok" else
               [["reset", k + 1], ["build"]] for k, P in enumerate(ps)]
    c.notes.append("%d descriptions with formats of 7 to 64 bits" % len(ps))
    try:
        c.record("fields", binary, "InstWord", b.consts_for(ps),
                 scripts, timeout=600, per_chunk=400)
    except b.vlib.Violation as v:
        import json
        d = json.load(open(v.replay))
        k = d["trace"][0][0][1] - 1
        d["bin_fmt"] = b.text(ps[k], k)
        json.dump(d, open(v.replay, "w"), indent=1)
        raise
    c.assumptions.append("formats of up to 64 bits in the default layout; the grammar is parsed by "
                         "a stand-in for the ANTLR runtime driven by the repository's .g4 file")
