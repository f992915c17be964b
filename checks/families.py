"""Families of inputs. A family is a function (rng, tier) -> one job for the harness; every choice comes from rng."""
import gen

MIX = ["op"] * 5 + ["S"] * 2 + ["mpm"] * 6 + ["meas"] * 2 + ["init"] * 4 + ["magic"] * 2 + ["y"] * 2 + ["rot"] * 3 + ["reset"]
LOC = ["cnot"] * 6 + ["bell"] * 2


def _router(rng):
    return dict(router=rng.choice(["custom", "custom", "custom", "cached"]), gs=rng.choice(["dij", "dij", "astar", "boost"]))


def prog(kinds=None, local=None, pipes=("stream", "dag", "wave"), grid=None, length=(1, 14), waits=0.25, opids=0.5, graceful=0.3, stats=False, js=False, dt=(1, 5), cl_extra=0.2, twists=None, router=True):
    """A random instruction list on a random small text layout."""
    def f(rng, tier):
        g = dict(grid or {})
        if tier == "thorough" and "rows" not in g and rng.random() < 0.3:
            g.update(rows=(4, 9), cols=(4, 9))
        large = rng.random() < .04     # now and then a large lattice, many qubits, a long program
        if large:
            g.update(rows=(7, 13), cols=(7, 15), nq=rng.randint(6, 16))
        rows, info = gen.grid(rng, **g)
        c = gen.core(rng, rng.randint(1, info['n']))
        loc = rng.random() < 0.4 if local is None else local
        ks = kinds or (MIX + (LOC if loc else []))
        ln = rng.randint(30, 70) if large else rng.randint(*length)
        if tier == "thorough" and rng.random() < 0.3 and not large:
            ln *= 2
        src = dict(core=c, prog=gen.prog(rng, c, ln, local=loc, kinds=ks, waits=waits / 5 if large else waits, cl_extra=cl_extra))
        j = dict(t="slice", layout=dict(rows=rows), dt=rng.randint(*dt), stag=rng.random() < .5, src=src, pipe=rng.choice(pipes), local=loc,
                 twists=(rng.random() < .6) if twists is None else twists, opids=rng.random() < opids, graceful=rng.random() < graceful, maxs=100 if large else rng.choice([12, 30]))
        if large and rng.random() < .5:
            j["dt"] = rng.randint(9, 25)
        if router:
            j.update(_router(rng))
        if stats:
            j["stats"] = True
        if js:
            j["json"] = True
        return j
    return f


def compact(nq=(1, 6), kinds=("h", "s", "sdg", "t", "x", "z", "cx", "cx", "cz"), length=(1, 8), **kw):
    def f(rng, tier):
        n = rng.randint(*nq)
        j = dict(t="slice", layout=dict(gen="compact", n=n, nc=rng.random() < .5), dt=rng.randint(1, 6), stag=rng.random() < .5,
                 src=dict(gates=gen.gates(rng, n, rng.randint(*length), kinds=list(kinds)), n=n), pipe=rng.choice(["stream", "dag", "wave"]), inj=["rot", "tele"],
                 twists=rng.random() < .5, router=rng.choice(["custom", "cached"]), maxs=60)
        j.update(kw)
        return j
    return f


# outside what the edge-disjoint-path pipeline is offered for (more than one lane): crossings may meet around a corner
CORNER = dict(noy=False, exc=True, cut=False, corner=True)


def cornered(j):
    return dict(j, x=CORNER) if j["pipe"] == "edpc" and j["layout"].get("lanes", 2) > 1 and "x" not in j else j


def edpc(nq=(1, 6), pipes=("edpc", "edpc", "wave", "dag", "stream"), length=(1, 10), tprob=0.5, **kw):
    def f(rng, tier):
        n = rng.randint(*nq)
        pre = rng.random() < .7
        kinds = ["h", "s", "x", "z", "cx", "cx", "cx", "cx"] + (["t"] if rng.random() < tprob else [])
        j = dict(t="slice", layout=dict(gen="edpc", n=n, lanes=rng.choice([1, 1, 2]), cond=rng.random() < .3, fact=rng.random() < .4, pre=pre), dt=rng.randint(1, 6), stag=rng.random() < .5,
                 src=dict(gates=gen.gates(rng, n, rng.randint(*length), kinds=kinds), n=n), pipe=rng.choice(pipes), local=True, twists=not pre,
                 inj=["catrot"] if pre else ["telerot"], maxs=60)
        j.update(kw)
        return cornered(j)
    return f


def edpcprog(nq=(2, 8), length=(1, 12), pipes=("edpc",), kinds=("op", "op") + ("cnot",) * 10 + ("rot", "meas"), **kw):
    def f(rng, tier):
        n = rng.randint(*nq)
        c = gen.core(rng, n)
        j = dict(t="slice", layout=dict(gen="edpc", n=n, lanes=rng.choice([1, 1, 1, 2]), cond=rng.random() < .3, fact=False, pre=True), dt=rng.randint(1, 6),
                 src=dict(core=c, prog=gen.prog(rng, c, rng.randint(*length), local=True, kinds=list(kinds))), pipe=rng.choice(pipes), local=True, twists=False, inj=[], maxs=60)
        j.update(kw)
        return cornered(j)
    return f


def edwave(rng, tier):
    """A few waves of long-range CNOTs between all qubits of an EDPC layout with one to three lanes."""
    n = rng.choice([9, 12, 16, 20, 25])
    c = gen.core(rng, n)
    order, prog, nid = c[:], [], max(c) + 1
    for q in c:
        if rng.random() < .5:
            prog.append(dict(k="op", t=q, op="H", dag=False, cl=[]))
    for _ in range(rng.randint(1, 2)):
        rng.shuffle(order)
        for k in range(0, n - 1, 2):
            prog.append(dict(k="cnot", c=order[k], t=order[k + 1], s1=nid, s2=nid + 1, cl=[]))
            nid += 2
    return cornered(dict(t="slice", layout=dict(gen="edpc", n=n, lanes=rng.choice([1, 1, 2, 3]), cond=rng.random() < .4, fact=False, pre=True), dt=3,
                         src=dict(core=c, prog=prog), pipe="edpc", local=True, twists=False, inj=[], maxs=60))


def opengates(local=False, **kw):
    def f(rng, tier):
        n = rng.randint(1, 5)
        rows = gen.open_grid(rng, n, magic=rng.choice(["none", "res", "dist"]), ys=rng.randint(0, 2))
        j = dict(t="slice", layout=dict(rows=rows), dt=rng.randint(1, 6), src=dict(gates=gen.gates(rng, n, rng.randint(1, 8), kinds=["h", "s", "x", "z", "cx", "cx"]), n=n),
                 pipe=rng.choice(["stream", "dag", "wave"]), inj=rng.choice([[], ["rot"]]), local=local, maxs=60)
        j.update(kw)
        return j
    return f


def mixed(*fs):
    """[(weight, family), ...]"""
    def f(rng, tier):
        t = rng.uniform(0, sum(w for w, _ in fs))
        for w, g in fs:
            t -= w
            if t <= 0:
                return g(rng, tier)
        return fs[-1][1](rng, tier)
    return f


def patient(rng, tier):
    """Waits of up to more than a hundred slices, next to instructions that keep being applied."""
    rows = rng.choice([["rrr", "rQr"], ["rrr0", "rQrr"], ["QrQ", "rrr"], ["Qr", "rM"], ["Q0", "rA"]])
    n = "".join(rows).count("Q")
    c = gen.core(rng, n)
    ws = lambda: rng.choice([-1, -1, 0, 1, 7, 40, 99, 100, 101])
    out, nid = [], 50
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(c)
        i = rng.choice([dict(k="init", t=nid, st="+", pn=[], cl=[]), dict(k="magic", t=nid, near=t, cl=[]), dict(k="init", t=nid, st="0", pn=[t, rng.choice("XZ")], cl=[t]),
                        dict(k="magic", t=nid, near=t, cl=[t]), dict(k="op", t=t, op="S", dag=False, cl=[])])
        i["w"] = ws()
        if i["k"] == "magic" and not any(ch in "0M" for ch in "".join(rows)):
            continue
        out.append(i)
        nid += 1
    busy = [dict(k="rot", t=rng.choice(c), cl=[]) if rng.random() < .8 else dict(k="op", t=rng.choice(c), op=rng.choice("HX"), dag=False, cl=[]) for _ in range(rng.choice([0, 5, 45]))]
    if rng.random() < .7:
        out = out + busy
    else:
        out = busy + out
    return dict(t="slice", layout=dict(rows=rows), dt=rng.choice([1, 30, 99, 100, 101, 104, 120]), stag=False, src=dict(core=c, prog=out), pipe=rng.choice(["dag", "dag", "wave", "stream"]), local=False, twists=False,
                graceful=rng.random() < .3, router="custom", gs="dij", maxs=140)


def crossing(rng, tier):
    """Long-range CNOTs between qubits on the border of an open field, so that many paths of one wave cross."""
    R, C = rng.randint(3, 6), rng.randint(3, 6)
    ring = [(0, k) for k in range(1, C + 1)] + [(R + 1, k) for k in range(1, C + 1)] + [(r, 0) for r in range(1, R + 1)] + [(r, C + 1) for r in range(1, R + 1)]
    gap = rng.choice([0, 0, .3])
    qs = [x for x in ring if rng.random() >= gap]
    g = [["r"] * (C + 2) for _ in range(R + 2)]
    for x in [(0, 0), (0, C + 1), (R + 1, 0), (R + 1, C + 1)]:
        g[x[0]][x[1]] = "X" if rng.random() < .7 else "r"
    for r, c in qs:
        g[r][c] = "Q"
    if rng.random() < .5:
        g = [["X"] * (C + 4)] + [["X"] + x + ["X"] for x in g] + [["X"] * (C + 4)]
    pos = [(r, c) for r, row in enumerate(g) for c, ch in enumerate(row) if ch == "Q"]
    n = len(pos)
    core = list(range(n))
    out, nid = [], n
    if n < 2:
        return crossing(rng, tier)
    # turned so that a control leaves and a target is entered through the open side
    turned = set()
    waves = rng.choice([1, 2, 2, 3])
    for wave in range(waves):
        order = core[:]
        rng.shuffle(order)
        pairs = []
        if rng.random() < .6:
            hs = sorted((r, c, i) for i, (r, c) in enumerate(pos))
            byrow, bycol = {}, {}
            for r, c, i in hs:
                byrow.setdefault(r, []).append(i)
                bycol.setdefault(c, []).append(i)
            top, left = min(r for r, _ in pos), min(c for _, c in pos)
            for v in list(byrow.values()) + list(bycol.values()):
                if len(v) == 2:
                    pairs.append(rng.sample(v, 2))
            used = set()
            pairs = [p for p in pairs if not (used & set(p)) and not used.update(p)]
        else:
            pairs = [order[k:k + 2] for k in range(0, n - 1, 2)]
        rng.shuffle(pairs)
        pairs = pairs[:rng.randint(1, len(pairs))] if pairs and rng.random() < (.6 if wave else .3) else pairs
        for a, b in pairs:
            for q, want in ((a, "Z"), (b, "X")):
                vert = pos[q][0] in (min(r for r, _ in pos), max(r for r, _ in pos))
                exposed = "Z" if vert != (q in turned) else "X"
                if exposed != want and rng.random() < .98:
                    out.append(dict(k="op", t=q, op="H", dag=False, cl=[]))
                    turned ^= {q}
        for a, b in pairs:
            out.append(dict(k="cnot", c=a, t=b, s1=nid, s2=nid + 1, cl=[]))
            nid += 2
    return cornered(dict(t="slice", layout=dict(rows=["".join(x) for x in g]), dt=3, stag=False, src=dict(core=core, prog=out), pipe="edpc", local=True, twists=False, inj=[], maxs=60))


def weave(rng, tier):
    """Waves of long-range CNOTs straight across an open field; rows or columns are taken no two next to each other, so that crossings form straight chains only."""
    R, C = rng.randint(2, 6), rng.randint(2, 6)
    H, V = list(range(1, R + 1)), list(range(1, C + 1))
    thin = lambda L: [x for x in L if (x - rng0) % 2 == 0]
    rng0 = rng.randint(1, 2)
    if rng.random() < .5:
        H = thin(H)
    else:
        V = thin(V)
    pos = {}
    for r in H:
        pos[(r, 0)] = pos[(r, C + 1)] = None
    for c in V:
        pos[(0, c)] = pos[(R + 1, c)] = None
    g = [["r" if 0 < r < R + 1 and 0 < c < C + 1 else "X" for c in range(C + 2)] for r in range(R + 2)]
    for k, (r, c) in enumerate(sorted(pos)):
        pos[(r, c)] = k
        g[r][c] = "Q"
    n = len(pos)
    lines = [((r, 0), (r, C + 1)) for r in H] + [((0, c), (R + 1, c)) for c in V]
    out, nid, turned = [], n, set()
    for wave in range(rng.choice([1, 2, 2, 3])):
        rng.shuffle(lines)
        some = lines if rng.random() < (.35 if wave else .75) else lines[:rng.randint(1, len(lines))]
        cnots = []
        for l in some:
            a, b = rng.sample(l, 2)
            for q, want in ((a, "Z"), (b, "X")):
                k = pos[q]
                vert = q[0] in (0, R + 1)
                if ("Z" if vert != (k in turned) else "X") != want:
                    out.append(dict(k="op", t=k, op="H", dag=False, cl=[]))
                    turned ^= {k}
            cnots.append(dict(k="cnot", c=pos[a], t=pos[b], s1=nid, s2=nid + 1, cl=[]))
            nid += 2
        out += cnots
    return dict(t="slice", layout=dict(rows=["".join(x) for x in g]), dt=3, stag=False, src=dict(core=list(range(n)), prog=out), pipe="edpc", local=True, twists=False, inj=[], maxs=60)


def corridor(rng, tier):
    """Qubits along a corridor: long-range operations of disjoint qubits start in the same slice and compete for cells between their steps."""
    W, depth = rng.randint(3, 8), rng.choice([1, 1, 2])
    side = lambda: "".join("Q" if rng.random() < .6 else rng.choice("rrX") for _ in range(W))
    anc = rng.choice([0, .15, .4])
    rows = [side()] + ["".join("A" if rng.random() < anc else "r" if rng.random() < .95 else "X" for _ in range(W)) for _ in range(depth)] + [side()]
    if rng.random() < .2:
        rows = [rng.choice("rQX") + r + rng.choice("rQX") for r in rows]
    across = rng.random() < .5
    if across:
        rows = ["".join(r[k] for r in rows) for k in range(len(rows[0]))]
    n = "".join(rows).count("Q")
    if n < 2:
        return corridor(rng, tier)
    c = list(range(n))
    pos = [(i, k) for i, row in enumerate(rows) for k, ch in enumerate(row) if ch == "Q"]
    nid, out, free, turned = n + 100, [], [], set()
    for _ in range(rng.randint(1, 3)):
        order = c[:]
        rng.shuffle(order)

        def facing(q, op):                     # turned so that this side faces the corridor
            if ("Z" if across == (q in turned) else "X") != op and rng.random() < .95:
                turned.symmetric_difference_update({q})
                out.append(dict(k="op", t=q, op="H", dag=False, cl=[]))
        for k in range(0, n - 1, 2):
            if sum(abs(x - y) for x, y in zip(pos[order[k]], pos[order[k + 1]])) == 2 and rng.random() < .95:     # too close: rejected
                continue
            if rng.random() < .6:
                facing(order[k], "Z")
                facing(order[k + 1], "X")
                out.append(dict(k="cnot", c=order[k], t=order[k + 1], s1=nid, s2=nid + 1, cl=[]))
            else:
                a, b = rng.choice("XZ"), rng.choice("XZ")
                facing(order[k], a)
                facing(order[k + 1], b)
                out.append(dict(k="bell", s1=nid, s2=nid + 1, l1=[order[k], a], l2=[order[k + 1], b], cl=[]))
                free += [nid, nid + 1]
            nid += 2
        if anc:
            for _ in range(rng.randint(1, 3)):
                out.append(dict(k="init", t=nid, st="0", pn=[], cl=[]))
                free.append(nid)
                nid += 1
        for q in list(free):
            if rng.random() < .8:
                free.remove(q)
                out.append(dict(k="meas", t=q, p=rng.choice("XZ"), neg=False, cl=[]))
    return dict(t="slice", layout=dict(rows=rows), dt=3, stag=False, src=dict(core=c, prog=out), pipe=rng.choice(["dag", "dag", "wave"]), local=True, twists=False, inj=[], maxs=40)


TIGHT = dict(rows=(2, 4), cols=(2, 5), dead=True)
CROWDED = dict(rows=(1, 4), cols=(4, 7), anc=(2, 8), dead=True)
ROOMY = dict(rows=(4, 7), cols=(4, 8), dead=True)
W = dict(slice={
    "C01": mixed((6, prog()), (1, compact()), (1, edpc()), (2, prog(grid=TIGHT))),
    "C02": mixed((6, prog()), (1, compact()), (1, edpc()), (1, opengates()), (1, prog(kinds=["op"] * 6 + ["meas", "init", "mpm"]))),
    "C03": mixed((1, corridor), (4, prog(pipes=("dag", "wave", "wave", "stream"), waits=0.05, length=(4, 20))), (2, prog(grid=ROOMY, pipes=("dag", "wave"), waits=0, length=(6, 20))), (1, compact()), (1, edpc()), (1, edpcprog(pipes=("dag", "wave", "stream", "edpc")))),
    "C04": mixed((5, prog(kinds=["mpm"] * 8 + ["S"] * 4 + ["op"] * 2 + ["rot"] * 2 + ["init"] * 3, local=False)), (2, prog(kinds=["mpm"] * 8 + ["init"] * 5 + ["rot", "op"], local=True, grid=TIGHT)), (1, prog(kinds=["mpm"] * 6 + ["S"] * 3 + ["rot"] * 2, local=False, grid=ROOMY, pipes=("dag", "wave"), waits=0)), (1, compact())),
    "C06": mixed((5, prog(kinds=["magic"] * 8 + ["meas"] * 4 + ["op"] * 3 + ["mpm"] * 3 + ["rot"] * 3 + ["init"] * 2, grid=dict(magic="dist"), dt=(1, 4))), (5, prog(kinds=["magic"] * 8 + ["meas"] * 5 + ["op"] * 3 + ["mpm"] * 2 + ["rot"] * 3, grid=dict(magic="res"), dt=(1, 4))), (2, compact(kinds=("t", "t", "h", "cx"))), (2, edpc(tprob=1))),
    "C07": mixed((5, prog(kinds=["rot"] * 7 + ["mpm"] * 4 + ["op"] * 4 + ["S"] + ["init"] * 3 + ["magic"] * 2 + ["meas"])), (3, prog(kinds=["rot"] * 7 + ["mpm"] * 3 + ["op"] * 2 + ["init"] * 4, grid=TIGHT)), (1, compact(kinds=("h", "cx", "s", "cz"))), (1, edpc(tprob=0))),
    "C12": mixed((4, corridor), (3, prog(kinds=["bell"] * 6 + ["cnot"] * 3 + ["init"] * 7 + ["op"] * 3 + ["meas"] * 4 + ["rot"] * 3 + ["magic"], local=True, grid=CROWDED, pipes=("dag", "wave"), waits=0.05, cl_extra=0.05, length=(5, 16))), (5, prog(kinds=["cnot"] * 8 + ["bell"] * 5 + ["op"] * 2 + ["meas"] * 3 + ["init"] * 2 + ["rot"], local=True)), (2, prog(kinds=["cnot"] * 8 + ["bell"] * 3 + ["op"], local=True, grid=ROOMY, pipes=("dag", "wave"))), (2, edpc(pipes=("stream", "wave", "dag")))),
    "C13": mixed((4, crossing), (3, weave), (1, edwave), (4, edpcprog()), (3, edpc(pipes=("edpc",), tprob=0.2)), (3, edpcprog(nq=(6, 12), length=(6, 16), kinds=("cnot",)))),
    "C19": mixed((1, patient), (5, prog(waits=0.7, grid=TIGHT, graceful=0.5)), (3, prog(waits=0.5, graceful=0.5)), (1, edpc()), (1, compact()), (1, prog(grid=dict(magic="dist"), kinds=["magic"] * 5 + ["meas", "op"], waits=0.6, dt=(1, 3)))),
    "C20": mixed((5, prog(kinds=["y"] * 8 + ["op"] * 3 + ["mpm"] * 2 + ["meas"] * 2 + ["rot"] * 3 + ["S"], grid=dict(ys=True))), (3, prog(kinds=["y"] * 8 + ["meas"] * 2 + ["rot"] * 2 + ["mpm"] * 2, local=True, twists=True)), (2, edpc(tprob=0, length=(3, 10)))),
})


def shown(rng, tier):
    """Runs of every kind whose slices are also written as JSON and counted."""
    j = mixed((4, prog(waits=.1)), (2, prog(local=True, kinds=MIX + LOC, waits=.1)), (2, compact()), (3, edpc()), (1, edpcprog()))(rng, tier)
    j["json"] = j["stats"] = True
    return j


def counted(rng, tier):
    """Runs that complete, with waits of every length, on every pipeline."""
    j = mixed((4, prog(waits=.05, cl_extra=.1, length=(1, 20))), (2, prog(kinds=["magic"] * 4 + ["op", "rot", "meas"], waits=.05, dt=(1, 9), grid=dict(magic="dist"))), (2, compact()), (2, edpc()), (1, edpcprog()))(rng, tier)
    j["maxs"] = 200
    j["graceful"] = False
    return j


REGIONS = [(["rrrr", "rQrr", "rrrr"], 0), (["11rr", "rQr2", "rrr2"], 2), (["1rrrr", "11rQr", "rrrrr", "rr333", "rr3r1"], 3), (["rMrr", "QrMr", "rrrr"], 0)]


def rpatch(rng):
    return [rng.randrange(5), rng.randrange(9), rng.choice([-1, -1, 0, 3, 41, 999999])] + [rng.randrange(12) for _ in range(4)] + [rng.choice([-1, -1, 0, 5, 77])]


def states(rng, tier):
    """Lattices with arbitrary patches."""
    rows, n = rng.choice(REGIONS)
    nm = "".join(rows).count("M")

    def cell(ch):
        if ch.isdigit():
            return [0, 3, -1, 2, 2, 2, 2, -1] if rng.random() < .8 else [0] + rpatch(rng)[1:]
        return [] if rng.random() < .3 else rpatch(rng)
    return dict(t="out", layout=dict(rows=rows), dt=rng.randint(1, 5), stag=rng.random() < .5,
                sts=[dict(g=[[cell(ch) for ch in r] for r in rows], mag=[], tm=[rng.choice([0, 1, 2, 9, 10, 123456, rng.randrange(10 ** 9)]) for _ in range(n + nm)], y=0) for _ in range(rng.randint(1, 6))])
