"""Generated instruction decoders (InstWord.tla): every word decodes as described."""
import bindec as b


def words(rng, P, n):
    """Words near the boundaries of the constraints."""
    W = P["w"]
    out = [0, (1 << W) - 1]
    allc = []
    for I in P["insts"]:
        F = P["fmts"][I["fmt"]]
        allc += [(F, I["cons"])] + [(F, I["cons"] + cs) for _, cs in I["specs"]]
    while len(out) < n:
        F, cons = rng.choice(allc)
        w = rng.getrandbits(W)
        for (l, op, r) in cons:
            v = b.raw(F, r, w) if isinstance(r, str) else r
            if op == "==" or rng.random() < 0.7:
                d = 0 if op in ("==", "<=", ">=") else (-1 if op == "<" else 1)
                if rng.random() < 0.1:
                    d += rng.choice([-1, 1])
                w = b.insert(F, l, (v + d) % (1 << b.width(F, l)), w)
        if rng.random() < 0.25:
            w ^= 1 << rng.randrange(W)
        out.append(w)
    return out


def programs(c):
    rng = c.rng
    q = c.pick
    ps = []
    for W in [8] * q(8, 24) + [9, 10, 7, 6]:
        ps.append(b.prog_tree(rng, W))
        ps.append(b.prog_tree(rng, W, spec=0.4, other=0.3, ovl=0.6))
    for W in [8] * q(12, 40) + [5, 10]:
        ps.append(b.prog_random(rng, W))
    for W in [6, 8, 8]:
        ps.append(b.prog_single(rng, W))
    for W in [16, 32, 32, 64, 24, 40, 33] * q(1, 3):
        ps.append(b.prog_tree(rng, W, spec=0.3, other=0.3, ovl=0.6))
        ps.append(b.prog_random(rng, W))
    for k in range(q(16, 48)):
        ps.append(b.broken(rng, rng.choice([8, 8, 12, 32])))
    return ps


def run(c):
    rng = c.rng
    ps = programs(c)
    exe, gen = b.build_generator(c.work)
    binary, status = b.build_decoders(c, c.work, exe, gen, ps)
    for k, (st, err) in enumerate(status):
        if st == "uncompilable":
            c.fail("decode", "the code generated for description %d does not compile" % k,
                   dict(bin_fmt=b.text(ps[k], k), stderr=err))
    # Design: small descriptions, all words reachable.
    small = [P for P in ps if P["w"] <= 8 and "broken" not in P][:3]
    c.tlc.model_check("InstWord", dict(Progs=b.tla_progs(small), ValSet=set(), WordSet=
                      "{<<k, 0, 0, 0>> : k \\in {0, 1, 85, 128, 170, 255}}"),
                      invariants=["InRange", "Deterministic", "EncDecodes"],
                      properties=["Independence"])
    scripts = []
    for k, P in enumerate(ps):
        sc = [["reset", k + 1], ["build"]]
        if status[k][0] == "ok":
            ws = list(range(1 << P["w"])) if P["w"] <= 10 else words(rng, P, c.pick(150, 1500))
            sc += [["dec", b.limbs(w)] for w in ws]
        scripts.append(sc)
    amb = sum(P["amb"] for P in ps)
    c.notes.append("%d descriptions (%d with overlapping instructions, %d malformed); words of up "
                   "to 10 bits exhaustively" % (len(ps), amb, sum("broken" in P for P in ps)))
    try:
        c.record("decode", binary, "InstWord", b.consts_for(ps),
                 scripts, timeout=600, per_chunk=400)
    except b.vlib.Violation as v:
        import json
        d = json.load(open(v.replay))
        k = d["trace"][0][0][1] - 1
        d["bin_fmt"] = b.text(ps[k], k)
        json.dump(d, open(v.replay, "w"), indent=1)
        raise
    c.assumptions.append("instruction words of up to 64 bits; a word that matches several "
                         "instructions may decode to any of them; the grammar is parsed by a "
                         "stand-in for the ANTLR runtime driven by the repository's .g4 file")
