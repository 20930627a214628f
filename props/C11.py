from vlib import *


def rdoc(r, depth, names=(1, 2, 3, 4, 4, 9)):
    def entry():
        n = r.choice([1, 2, 2, 3, 4, 5, 5, 8])
        t = n if r.random() < 0.6 else r.choice([6, 6, 2, 1, 3, 4, 5])
        if n == 2:
            t = r.choice([2, 6])
        if r.random() < 0.03:
            t = 0
        if r.random() < 0.03:
            n = 0
        return [n, t, r.randint(0, 5)]
    d = [r.choice(names) if r.random() > 0.02 else 0, [entry() for _ in range(r.choice([0, 1, 2, 3]))], []]
    if depth:
        d[2] = [rdoc(r, depth - 1, (2, 3, 4, 2, 3, 9)) for _ in range(r.choice([0, 1, 2, 3]))]
    return d


def scripts(c, n, ln):
    r = c.rng
    out = []
    for _ in range(n):
        sc = [["reset"]]
        if r.random() < 0.7:  # a tree first
            par = {}
            for k in (2, 3, 4, 5):
                if r.random() < 0.8:
                    p = r.choice([x for x in (1, 2, 3, 4, 5) if x < k])
                    sc.append(["kid", p, k])
        for g in range(1, 7):
            for p in r.sample([1, 2, 3, 4, 5], r.choice([1, 1, 2])):
                sc.append(["addcfg", p, g])
            for _ in range(r.choice([0, 1, 1, 2])):
                sc.append(["cb", g])
        for k in (1, 2, 3, 4):
            sc.append(["addctr", r.randint(1, 5), k])
        ini = False
        edges = {}
        for _ in range(ln):
            o = r.choices(["kid", "unkid", "addcfg", "addctr", "cb", "cset", "csetv", "inc", "dec", "set", "enable",
                           "init", "listen", "export", "done", "import"],
                          [0, 1, 1, 1, 0.3, 3, 3, 4, 3, 4, 3, 0.7, 0.7, 4, 1, 6])[0]
            if o == "unkid":
                sc.append([o, r.randint(1, 5), r.choice([2, 3, 4, 7])])
            elif o == "addcfg":
                sc.append([o, r.randint(1, 5), r.randint(1, 6)])
            elif o == "addctr":
                sc.append([o, r.randint(1, 5), r.randint(1, 4)])
            elif o == "cb":
                sc.append([o, r.randint(1, 6)])
            elif o == "cset":
                sc.append([o, r.randint(1, 6), r.randint(0, 5)])
            elif o == "csetv":
                g = r.randint(1, 6)
                sc.append([o, g, g if r.random() < 0.6 else r.randint(1, 6), r.randint(0, 5)])
            elif o in ("inc", "dec", "set"):
                sc.append([o, r.randint(1, 4), r.choice([0, 1, 2, 3, 7, 1000])])
            elif o == "enable":
                k = r.choice([1, 2, 4] + ([3] if ini else []))
                sc.append([o, k, r.choice([0, 1, 1])])
            elif o == "init":
                ini = True
                sc.append([o, 3, r.choice([0, 5, 8])])
            elif o == "listen":
                a, b = sorted(r.sample([1, 2, 3, 4], 2))
                if edges.get(a, 0) < 2:
                    edges[a] = edges.get(a, 0) + 1
                    sc.append([o, a, b])
            elif o in ("export", "done"):
                sc.append([o, r.randint(1, 5) if r.random() < 0.3 else 1])
            elif o == "import":
                sc.append([o, 1, rdoc(r, 3, (1, 1, 1, 1, 1, 2))])
        out.append(sc)
    return out


def run(c):
    b = Builder(c.work)
    G = "mpact/sim/generic/"
    exe = b.build("comp", "component_h.cc", [G + "component.cc"])
    inv = ["UniqueNames", "RoundTrip"]
    act = ["ConfigFrame", "CounterFrame", "DisabledFrozen", "ImportOnlyNamed"]
    docs = {"<<1, <<<<2, 2, 1>>>>, <<<<2, <<<<2, 6, 1>>, <<1, 2, 1>>>>, <<>>>>>>>>",
            "<<1, <<<<1, 1, 1>>, <<8, 1, 1>>, <<2, 6, 1>>, <<1, 1, 0>>>>, <<>>>>", "<<2, <<>>, <<>>>>"}
    K = dict(NC=3, CfgIds={2, 6}, CtrIds={1, 4}, Vals={1, 2}, Docs=docs, Lists=True)
    c.tlc.model_check("Components", K, inv, act, constraint="MCBound",
                      body='MCBound == TLCGet("level") <= %d' % c.pick(4, 5))
    KC = dict(K, NC=4, CfgIds={1, 2, 6}, CtrIds=set(), Vals={1}, Lists=False)
    c.replay("components", exe, c.tlc.generate("Components", KC, maxlen=c.pick(5, 6), tag="c"))
    KK = dict(K, NC=2, CfgIds=set(), CtrIds={1, 2, 3, 4}, Vals={1, 2}, Docs=set())
    tr = c.tlc.generate("Components", KK, maxlen=c.pick(5, 6), tag="k")
    for t in ("i64", "u64", "f64"):
        c.replay("counters-" + t, exe, tr, [t])
    KR = dict(K, NC=5, CfgIds={1, 2, 3, 4, 5, 6}, CtrIds={1, 2, 3, 4})
    for t in ("i64", "u64", "f64"):
        c.record("components-" + t, exe, "Components", KR, scripts(c, c.pick(40, 400), c.pick(80, 150)), inv, [t])
