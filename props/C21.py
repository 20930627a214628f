from vlib import *
D = "mpact/sim/decoder/"


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset"]]
        alpha = r.choice([[95, 97, 65], [95, 97, 98, 65, 66, 49, 47, 46], list(range(32, 127)),
                          [95, 97, 122, 65, 90, 64, 91, 96, 123]])

        def nm(k):
            return [r.choice(alpha) for _ in range(r.randint(0, k))]
        names = [nm(6) for _ in range(r.randint(2, 9))]
        made = []
        for _ in range(ln):
            k = r.random()
            if k < 0.25:
                x = r.choice(names)
                sc.append(["create", x])
                if x not in made:
                    made.append(x)
            elif k < 0.5:
                x = r.choice(names)
                sc.append(["get", x])
                if x not in made:
                    made.append(x)
            elif k < 0.65 and made:
                sc.append(["set", r.randint(1, len(made)), r.choice(["simple", "multi", "array"]), r.random() < 0.5])
            elif k < 0.97:
                sc.append(["conv", r.choice(["pascal", "pascal", "snake", "snake", "guard", "lower", "indent"]), nm(r.choice([4, 12, 40]))])
            else:
                sc.append(["indentn", r.choice([0, 1, 7, 100])])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    exe = b.build("names", "names_h.cc", [D + "format_name.cc", D + "resource.cc"], proto=False,
                  fallback_globs=(D + "*.cc",))
    inv = ["UniqueNames", "NoUnderscore", "NoUpper", "PascalIdempotent", "SnakeRoundTrip"]
    # _ a B 1 / .  and the neighbours of the letter ranges in the recorded executions
    KC = dict(Chars={95, 97, 66, 49}, MaxChars=c.pick(4, 6), NameSet='{}', MaxRes=0)
    KR = dict(Chars={97}, MaxChars=1, NameSet='{<<97>>, <<97,95,98>>, <<65>>, <<>>}', MaxRes=c.pick(2, 3))
    c.tlc.model_check("Names", KC, inv, ["Stable"], tag="c")
    c.tlc.model_check("Names", KR, inv, ["Stable"], tag="r")
    c.replay("names", exe, c.tlc.generate("Names", dict(KC, Chars={95, 97, 90, 46}), maxlen=3))
    c.replay("resources", exe, c.tlc.generate("Names", KR, maxlen=c.pick(7, 9)))
    c.record("names", exe, "Names", KR, scripts(c, c.pick(150, 1500), c.pick(60, 100)), inv)
