"""What each property's check runs: parts are functions of a context and return counts and FAIL records."""
import json
from concurrent.futures import ThreadPoolExecutor
import cli, core, families, gen, texts, trans


def traces(module, fam, quick, thorough, secs=20, chunk=None, label=None):
    """Random jobs of one family run through the real code and validated by TLC."""
    def part(c):
        n = quick if c["tier"] == "quick" else thorough
        jobs = [fam(c["rng"], c["tier"]) for _ in range(n)]
        r = core.validate(c["work"], c["vh"], module, jobs, c["tag"], secs=secs)
        return dict(part=label or module, module=module, jobs=r.jobs, events=r.events, states=r.states, transitions=r.events, kinds=r.kinds, fails=r.fails, joblist=jobs,
                    samples=[json.loads(json.dumps(jobs[0]))] if jobs else [])
    return part


def lattice_mc(confs, want, quick=(25, 8), thorough=(1, 60), full=True, ticks=True):
    """Model check the lattice machine on small layouts; replay reachable states x instructions into the real code.
    quick/thorough: (keep every n-th state, at most that many instructions tried per state)."""
    def part(c):
        size = "small"
        every, per = quick if c["tier"] == "quick" else thorough
        tot = dict(states=0, transitions=0, jobs=0, events=0, fails=[], joblist=[], samples=[], part="LatticeMC", module="SliceTrace.tla", model={})

        def one(conf):
            return core.model_check(c["work"], "LatticeMC.tla", "LatticeMC.cfg", dict(MCCONF=conf, MCEMIT="1", MCSIZE="small", MCEVERY=str(every)), conf, workers=1)
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, confs))
        if c["tier"] == "thorough" and full:
            for conf in confs:
                g, d, _ = core.model_check(c["work"], "LatticeMC.tla", "LatticeMC.cfg", dict(MCCONF=conf, MCEMIT="0", MCSIZE="full", MCEVERY="1"), conf + "-full", workers=8, timeout=3000)
                tot["states"] += d
                tot["transitions"] += g
                tot["model"][conf + "-full"] = [g, d]
        jobs = []
        for conf, (g, d, out) in zip(confs, outs):
            tot["states"] += d
            tot["transitions"] += g
            tot["model"][conf] = [g, d]
            lay = core.MCLAY[conf]
            ys = {(r, k) for r, row in enumerate(lay) for k, ch in enumerate(row) if ch == "Y"}
            for st in core.emitted(out):
                where = {p[2]: (r, k, p[1]) for r, row in enumerate(st["g"]) for k, p in enumerate(row) if p and p[2] >= 0}
                ops = [i for i in st.pop("ops") if want(i) and not (i["k"] == "y" and i["t"] in where and (where[i["t"]][:2] not in ys or where[i["t"]][2] == 1))]
                ops.sort(key=lambda x: json.dumps(x, sort_keys=True))
                if len(ops) > per:
                    ops = c["rng"].sample(ops, per)
                if ticks:
                    ops.append(dict(k="tick"))
                jobs.append(dict(t="op", layout=dict(rows=lay), dt=2, stag=True, st=st, ops=ops, local=conf in ("local", "twist"), twists=conf in ("twist", "tight", "magic")))
        r = core.validate(c["work"], c["vh"], "SliceTrace.tla", jobs, c["tag"])
        tot.update(jobs=r.jobs, events=r.events, fails=r.fails, joblist=jobs, kinds=r.kinds, samples=jobs[:1])
        tot["states"] += r.states
        return tot
    return part


def kinds(*ks):
    return lambda i: i["k"] in ks or (i["k"] == "op" and i["op"] in ks)


ALLC = ["merge", "tight", "magic", "resv", "ys", "local", "twist"]
MC = "TLA+ specification; TLC validates traces recorded from the real code"
PLANS = {}
for p, fam in families.W["slice"].items():
    mc = {"C01": lattice_mc(ALLC, kinds("init", "rot", "magic", "y", "meas")), "C02": lattice_mc(ALLC, kinds("meas", "H", "X", "init", "reset", "mpm")), "C04": lattice_mc(["merge", "tight", "resv", "local"], kinds("mpm", "S"), quick=(12, 8), ticks=False),
          "C06": lattice_mc(["magic", "resv"], kinds("magic"), quick=(10, 8)), "C07": lattice_mc(ALLC, kinds("rot"), quick=(15, 8)), "C12": lattice_mc(["local", "twist"], kinds("cnot", "bell", "mpm"), quick=(3, 10), ticks=False),
          "C20": lattice_mc(["ys", "twist", "tight", "local"], kinds("y"), quick=(10, 8)), "C19": lattice_mc(ALLC, lambda i: True, quick=(30, 8), ticks=False)}
    PLANS[p] = dict(level="model_checking", technique=MC, parts=([mc[p]] if p in mc else []) + [traces("SliceTrace.tla", fam, 500, 12000)])

PLANS["C21"] = dict(level="model_checking", technique=MC + "; the reported counts are compared with the slices and instructions of the validated run", parts=[traces("SliceTrace.tla", families.counted, 400, 10000)])

NOTE = ("Every execution explored is checked event by event against the TLA+ specification, invariants included; the executions are seeded random samples plus exhaustively enumerated small cases, "
        "so the assurance is for what was explored. Trusted: the harness's projection of library objects to JSON, TLC, and that a free choice is read off the next emitted slice.")


QS = [[s, so, t, to] for s, t in ((0, 1), (1, 0)) for so in "XZ" for to in "XZ"] + [[0, "X", 0, "Z"], [0, "Z", 0, "X"], [1, "X", 1, "Z"]]
MODES = [dict(router="custom", gs="dij")] * 3 + [dict(router="custom", gs="astar"), dict(router="custom", gs="boost"), dict(router="cached", gs="dij", shared=True), dict(router="cached", gs="astar", shared=True)]


def routes(quick=(("2 3", 1), ("3 3", 6)), thorough=(("2 3", 1), ("3 3", 1), ("2 5", 7), ("3 4", 60), ("4 3", 60)), rnd=(300, 12000)):
    """Lattices enumerated by TLC (RouteMC) and larger random ones; the real routers are asked every query."""
    def part(c):
        th = c["tier"] == "thorough"
        tot = dict(states=0, transitions=0, part="RouteMC", module="RouteTrace.tla", model={})
        jobs = []
        rng = c["rng"]

        def one(x):
            rc, every = x
            r, k = rc.split()
            agree = "1" if rc == "2 3" or (th and rc == "3 3") else "0"
            return core.model_check(c["work"], "RouteMC.tla", "RouteMC.cfg", dict(MCROWS=r, MCCOLS=k, MCAGREE=agree, MCEVERY=str(every)), "route" + r + k, workers=1, timeout=3000)
        todo = thorough if th else quick
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, todo))
        for (rc, every), (g, d, out) in zip(todo, outs):
            tot["states"] += d
            tot["model"][rc] = d
            R, C = map(int, rc.split())
            gs = [s["g"] for s in core.emitted(out)]
            off = rng.randrange(len(MODES))
            gs.sort(key=lambda g: [[(p[2] if p else -2) if not p or p[2] >= 0 else -2 for p in r] for r in g])
            for n in range(0, len(gs), 8):
                ms = MODES if th else [MODES[(n // 8 + off) % len(MODES)]]
                for m in ms:
                    jobs.append(dict(t="route", layout=dict(rows=["r" * C] * R), sts=[dict(g=g) for g in gs[n:n + 8]], qs=QS, **m))
        for _ in range(rnd[th]):
            R, C = (rng.randint(2, 8), rng.randint(2, 9)) if rng.random() < .96 else (rng.randint(9, 16), rng.randint(9, 20))
            dens = rng.choice([.1, .25, .4, .55])
            sts = []
            cells = rng.sample([(r, k) for r in range(R) for k in range(C)], 3)
            for _ in range(3):
                g = [[[4, 8, -1, 2, 2, 2, 2, -1] if rng.random() < dens else [] for _ in range(C)] for _ in range(R)]
                for i, (r, k) in enumerate(cells):
                    g[r][k] = [2, 0, i] + rng.choice([[6, 6, 4, 4], [4, 4, 6, 6], [6, 6, 4, 4], [4, 4, 4, 6], [6, 4, 6, 4]]) + [-1]
                sts.append(dict(g=g))
            qs = rng.sample([[s, so, t, to] for s in range(3) for t in range(3) for so in "XZ" for to in "XZ" if s != t or so != to], 10)
            jobs.append(dict(t="route", layout=dict(rows=["r" * C] * R), sts=sts, qs=qs, **rng.choice(MODES)))
        r = core.validate(c["work"], c["vh"], "RouteTrace.tla", jobs, c["tag"], heap="3g")
        tot.update(jobs=r.jobs, events=r.events, fails=r.fails, joblist=jobs, kinds=r.kinds, samples=jobs[-1:], transitions=r.events)
        tot["states"] += r.states
        return tot
    return part


PLANS["C05"] = dict(level="model_checking", technique="TLC enumerates lattices and proves the route definition; real routers' answers validated against it", parts=[routes()])


def dag_rand(rng, tier):
    ops, live, nxt = [], [], 0
    large = rng.random() < .02
    n = rng.randint(60, 120) if large else rng.randint(3, 14 if tier == "quick" else 30)
    item = lambda: dict(tag=rng.randint(0, 99), qs=sorted(rng.sample(range(20 if large else 5), rng.choice([0, 1, 1, 2, 3]))))
    for _ in range(n):
        k = rng.choice(["push"] * 4 + ["pop"] * 4 + ["expand"] * 4 + ["prox", "bad"])
        if k == "bad":
            ops.append(rng.choice([dict(k="expand", l=rng.choice(live) if live else 0, items=[], prox=True), dict(k="pop", l=nxt + 50)]))
        elif k == "push" or not live:
            ops.append(dict(k="push", item=item()))
            live.append(nxt)
            nxt += 1
        elif k == "pop":
            ops.append(dict(k="pophead", r=rng.randint(0, 9)))
        elif k == "expand":
            m = rng.randint(1, 4)
            ops.append(dict(k="expand", l=rng.choice(live), items=[item() for _ in range(m)], prox=rng.random() < .7))
            live.remove(ops[-1]["l"])
            live += range(nxt, nxt + m)
            nxt += m
        else:
            ops.append(dict(k="prox", l=rng.choice(live)))
        if ops[-1]["k"] == "pophead":
            heads = _heads(ops[:-1])
            if not heads:
                ops.pop()
                continue
            h = heads[ops[-1]["r"] % len(heads)]
            ops[-1] = dict(k="pop", l=h)
            live.remove(h)
    return dict(t="dag", ops=ops, gv=True)


def _heads(ops):
    """Heads by direct simulation; only used to generate sensible operations."""
    N, E, it, nx = set(), set(), {}, 0
    for o in ops:
        if o["k"] == "push":
            E |= {(x, nx) for x in N if set(it[x]) & set(o["item"]["qs"])}
            N.add(nx)
            it[nx] = o["item"]["qs"]
            nx += 1
        elif o["k"] == "pop" and o["l"] in N:
            N.discard(o["l"])
            E = {e for e in E if o["l"] not in e}
        elif o["k"] == "expand" and o["l"] in N and o["items"]:
            l, k = o["l"], len(o["items"])
            E = {(nx + k - 1 if a == l else a, nx if b == l else b) for a, b in E} | {(nx + i, nx + i + 1) for i in range(k - 1)}
            N.discard(l)
            for i in range(k):
                N.add(nx + i)
                it[nx + i] = o["items"][i]["qs"]
            nx += k
    return sorted(x for x in N if not any(b == x for _, b in E))


def dag_list(rng, tier):
    if rng.random() < .5:
        n = rng.randint(2, 6)
        return dict(t="ddag", gates=True, src=dict(gates=gen.gates(rng, n, rng.randint(1, 14), kinds=["h", "s", "t", "x", "cx", "cx", "cx", "cz", "cz", "reset"])))
    large = rng.random() < .02
    c = gen.core(rng, rng.randint(6, 14) if large else rng.randint(1, 5))
    return dict(t="ddag", src=dict(core=c, prog=gen.prog(rng, c, rng.randint(30, 60) if large else rng.randint(1, 14), local=rng.random() < .6, kinds=families.MIX + families.LOC)))


def dags(quick=("2", "1"), thorough=("3", "1")):
    def part(c):
        depth, every = quick if c["tier"] == "quick" else thorough
        g, d, out = core.model_check(c["work"], "DagMC.tla", "DagMC.cfg", dict(MCDEPTH=depth, MCEVERY=every), "dag", workers=1, timeout=3000)
        jobs = [dict(t="dag", ops=s["ops"], gv=True) for s in core.emitted(out)]
        for j in jobs:
            for o in j["ops"]:
                if "items" in o:
                    o["items"] = list(o["items"])
        r = core.validate(c["work"], c["vh"], "DagTrace.tla", jobs, c["tag"])
        return dict(part="DagMC", module="DagTrace.tla", states=d + r.states, transitions=g, model=[g, d], jobs=r.jobs, events=r.events, kinds=r.kinds, fails=r.fails, joblist=jobs, samples=jobs[:1])
    return part


PLANS["C08"] = dict(level="model_checking", technique="TLC checks the DAG specification; its histories and random ones are replayed on the real DAG and validated by TLC",
                    parts=[dags(), traces("DagTrace.tla", dag_rand, 1500, 30000, label="random histories"), traces("DagTrace.tla", dag_list, 600, 10000, label="instruction and gate lists")])


def layout_text(rng, tier):
    rows, _ = gen.grid(rng, **(dict(rows=(1, 9), cols=(1, 12), nq=1) if rng.random() < .2 else {}))
    if rng.random() < .25:
        k = rng.randrange(len(rows))
        m = rng.choice(["drop", "bad", "empty", "add", "swap"])
        rows[k] = dict(drop=rows[k][:-1], bad=rows[k][:-1] + rng.choice("qRa x?-"), empty="", add=rows[k] + "r", swap=rng.choice("QrAYMX5DT") + rows[k][1:])[m]
    return dict(t="layout", layout=dict(rows=rows), dt=rng.randint(1, 9), stag=rng.random() < .5)


def layouts(quick=(16, 12), thorough=(80, 60)):
    """Every size up to a bound, every option combination; larger sizes sampled."""
    def part(c):
        a, b = quick if c["tier"] == "quick" else thorough
        rng = c["rng"]
        bl = [False, True]
        jobs = [dict(t="layout", layout=dict(gen="compact", n=n, nc=nc), dt=rng.randint(1, 9), stag=rng.random() < .5) for n in range(1, a + 1) for nc in bl]
        jobs += [dict(t="layout", layout=dict(gen="edpc", n=n, lanes=l, cond=x, fact=y, pre=z), dt=rng.randint(1, 9), stag=rng.random() < .5) for n in range(1, b + 1) for l in (1, 2, 3) for x in bl for y in bl for z in bl if c["tier"] == "thorough" or n < 5 or rng.random() < .35]
        for _ in range(12 if c["tier"] == "quick" else 60):
            n = rng.randint(b, 60 if c["tier"] == "quick" else 120)
            jobs.append(dict(t="layout", layout=dict(gen="edpc", n=n, lanes=rng.randint(1, 4), cond=rng.choice(bl), fact=rng.choice(bl), pre=rng.choice(bl)) if rng.random() < .6 else dict(gen="compact", n=n, nc=rng.choice(bl)), dt=rng.randint(1, 9), stag=rng.random() < .5))
        r = core.validate(c["work"], c["vh"], "LayoutTrace.tla", jobs, c["tag"])
        return dict(part="generated layouts", module="LayoutTrace.tla", states=r.states, transitions=r.events, jobs=r.jobs, events=r.events, kinds=r.kinds, fails=r.fails, joblist=jobs, samples=jobs[:1])
    return part


PLANS["C14"] = dict(level="model_checking", technique="layouts built by the real code validated by TLC against the specification of layout texts and layout families", parts=[layouts(), traces("LayoutTrace.tla", layout_text, 500, 8000, label="layout texts")])


def gate_programs(quick=("2", "23"), thorough=("2", "1")):
    """Every program of up to two gates (TLC), each through every target and correction mode."""
    def part(c):
        depth, every = quick if c["tier"] == "quick" else thorough
        g, d, out = core.model_check(c["work"], "TransMC.tla", "TransMC.cfg", dict(MCDEPTH=depth, MCEVERY=every), "trans", workers=1, timeout=3000)
        jobs = []
        for s in core.emitted(out):
            for corr in (False, True):
                for local in (False, True):
                    jobs.append(trans.gates_job(s["gates"], 2, corr, local))
        r = core.validate(c["work"], c["vh"], "TransTrace.tla", jobs, c["tag"])
        return dict(part="TransMC", module="TransTrace.tla", states=d + r.states, transitions=g, model=[g, d], jobs=r.jobs, events=r.events, kinds=r.kinds, fails=r.fails, joblist=jobs, samples=jobs[:1])
    return part


TR = "TLA+ stabiliser semantics of instruction lists; lists emitted by the real translators validated by TLC"
PLANS["C09"] = dict(level="model_checking", technique=TR, parts=[gate_programs(), traces("TransTrace.tla", trans.gates, 1500, 30000, label="gate lists"), traces("TransTrace.tla", trans.composed, 200, 4000, label="composed translators")])
PLANS["C10"] = dict(level="model_checking", technique=TR, parts=[traces("TransTrace.tla", trans.subst, 1500, 30000, label="S substitution"), traces("TransTrace.tla", trans.composed, 200, 4000, label="composed translators")])
PLANS["C11"] = dict(level="model_checking", technique="TLA+ specification of exposed sides; rewritten lists of the real translator validated by TLC", parts=[traces("TransTrace.tla", trans.expo, 1500, 40000, label="rotation injection")])


def mc_lines(module, kind, trace, quick, thorough, tag, chunk=200, env=None):
    """Every line of a small grammar, with and without a misfit (TLC), read by the real code."""
    def part(c):
        g, d, out = core.model_check(c["work"], module + ".tla", module + ".cfg", dict(env or {}, MCEVERY=quick if c["tier"] == "quick" else thorough, MCARGS="2" if c["tier"] == "quick" else "3"), tag, workers=1, timeout=3000)
        ls = [s["line"] for s in core.emitted(out)]
        jobs = [dict(t=kind, lines=ls[k:k + chunk], x={}) for k in range(0, len(ls), chunk)]
        r = core.validate(c["work"], c["vh"], trace, jobs, c["tag"])
        return dict(part=module, module=trace, states=d + r.states, transitions=g, model=[g, d], jobs=r.jobs, events=r.events, kinds=r.kinds, fails=r.fails, joblist=jobs, samples=[dict(t=kind, lines=ls[:5])])
    return part


def mc_shown(c):
    """Every patch of a small universe (TLC), packed into lattices whose JSON and counts the real code writes."""
    g, d, out = core.model_check(c["work"], "OutMC.tla", "OutMC.cfg", dict(MCEVERY="1"), "out", workers=1, timeout=900)
    ps = [s["p"] for s in core.emitted(out)]
    c["rng"].shuffle(ps)
    rows = ["rrrrrr"] * 3 + ["rrrrrQ"]
    lats = [[(ps[k:k + 24] + [[]] * 24)[:24][6 * r:6 * r + 6] for r in range(4)] for k in range(0, len(ps), 24)]
    resv = ["rrrrrr"] * 3 + ["MrrrrQ"]
    jobs = [dict(t="out", layout=dict(rows=rows if k % 2 else resv), sts=[dict(g=x, mag=[], tm=[] if k % 2 else [4], y=0) for x in lats[4 * k:4 * k + 4]]) for k in range((len(lats) + 3) // 4)]
    r = core.validate(c["work"], c["vh"], "OutTrace.tla", jobs, c["tag"])
    return dict(part="OutMC", module="OutTrace.tla", states=d + r.states, transitions=g, model=[g, d], jobs=r.jobs, events=r.events, kinds=r.kinds, fails=r.fails, joblist=jobs, samples=jobs[:1])


PLANS["C17"] = dict(level="model_checking", technique="TLC checks the specification of the volume counts over every kind of cell; counts and run totals of the real code are validated by TLC on every slice of runs on every kind of layout and on arbitrary lattices",
                    parts=[mc_shown, traces("OutTrace.tla", families.states, 300, 6000, label="arbitrary lattices"), traces("OutTrace.tla", families.shown, 250, 5000, label="runs")])
PLANS["C18"] = dict(level="model_checking", technique="TLC checks the specification of the JSON cells over every kind of cell; the JSON the real code writes is validated by TLC on every slice of runs on every kind of layout and on arbitrary lattices",
                    parts=[mc_shown, traces("OutTrace.tla", families.states, 300, 6000, label="arbitrary lattices"), traces("OutTrace.tla", families.shown, 250, 5000, label="runs")])
PLANS["C15"] = dict(level="model_checking", technique="TLC checks the specification of the instruction syntax (every line denotes what is printed for it); lines it generates and random ones are read and printed by the real code and validated by TLC",
                    parts=[mc_lines("LliMC", "lli", "LliTrace.tla", "1", "1", "lli"), traces("LliTrace.tla", texts.lli, 150, 4000, label="random lines"), traces("LliTrace.tla", texts.lli_print, 40, 800, label="printing"),
                           traces("LliTrace.tla", texts.lli_file, 400, 10000, label="files"), traces("SliceTrace.tla", texts.lli_slice, 300, 6000, label="text of applied instructions")])
PLANS["C16"] = dict(level="model_checking", technique="TLC checks the specification of the QASM dialect (every statement of it denotes one gate, which writes back to itself; broken ones denote nothing); lines it generates, random lines and programs are read by the real code and validated by TLC",
                    parts=[mc_lines("QasmMC", "qline", "QasmTrace.tla", "1", "3", "qasm"), traces("QasmTrace.tla", texts.qasm_lines, 150, 4000, label="random lines"), traces("QasmTrace.tla", texts.qasm_file, 600, 12000, label="programs")])
PLANS["C22"] = dict(level="model_checking", cli=True, technique="TLC checks the specification of the program's options over every combination of values that bear on each other; runs of the real program on generated option sets are validated by TLC against the run that specification derives",
                    parts=[cli.runs(300, 12000)])


def mc_db(c):
    """Every small table (TLC), read by the real code."""
    th = c["tier"] == "thorough"
    g, d, out = core.model_check(c["work"], "PandoraMC.tla", "PandoraMC.cfg", dict(MCROWS="3", MCEVERY="1" if th else "5"), "db", workers=1 if not th else 4, timeout=1500)
    jobs = [dict(t="db", rows=s["rows"]) for s in core.emitted(out)]
    r = core.validate(c["work"], c["vh"], "PandoraTrace.tla", jobs, c["tag"])
    return dict(part="PandoraMC", module="PandoraTrace.tla", states=d + r.states, transitions=g, model=[g, d], jobs=r.jobs, events=r.events, kinds=r.kinds, fails=r.fails, joblist=jobs, samples=jobs[-1:])


PLANS["C23"] = dict(level="model_checking", cli=True, technique="TLC checks a machine that reads circuit tables (every small table: ends, hands out each gate once and in layer order); the real reader is run on those tables and on larger random ones against an in-memory stand-in for the database and its gates are validated by TLC",
                    parts=[mc_db, traces("PandoraTrace.tla", texts.db, 3000, 60000, label="random tables")])
