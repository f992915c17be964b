"""Option sets and inputs for the slicer program. What they mean is computed by TLC (CliMC) and judged by TLC (CliTrace)."""
import json, os
import core, gen, texts


def lli_text(ids, prog):
    def p(i):
        k = i["k"]
        pn = lambda x: " %d:%s" % (x[0], x[1]) if x else ""
        if k == "op":
            return {"X": "XGate", "Y": "YGate", "Z": "ZGate", "H": "HGate", "S": "SGate"}[i["op"]] + " %d" % i["t"]
        if k == "meas":
            return "MeasureSinglePatch %d %s" % (i["t"], i["p"])
        if k == "mpm":
            return "MultiBodyMeasure " + ",".join("%d:%s" % (a, b) for a, b in i["obs"])
        if k == "init":
            return "Init %d |%s>" % (i["t"], i["st"]) + pn(i["pn"])
        if k == "magic":
            return "RequestMagicState %d %d" % (i["t"], i["near"])
        if k == "rot":
            return "RotateSingleCellPatch %d" % i["t"]
        return None
    return "\n".join(["DeclareLogicalQubitPatches " + ",".join(map(str, ids))] + [x for x in map(p, prog) if x])


def gate_text(g):
    n = {"CF": "ZXWithMBMControlFirst", "TF": "ZXWithMBMTargetFirst", "BELL": "BellBased"}
    if g["g"] == "reset":
        return "reset q[%d];" % g["q"]
    if g["g"] in ("cx", "cz"):
        a, b = (g["q"], g["c"])
        return "%s q[%d],q[%d];" % (g["g"], a, b) + (" // %" + n[g["ct"]] if g.get("ct") else "")
    return "%s q[%d];" % (g["g"], g["q"])


PLAIN = dict(L="-", I="-", lay="-", f="-", P="-", r="-", g="-", corr="-", printlli="-", printdag="-", input="-", t="-", lanes=-1, cond=-1, dt=-1,
             fact=False, local=False, notwists=False, out=False, noslices=False, opids=False, graceful=False, nostagger=False, strings=False, rows=[], port="-", dbport="5432")


def source(rng, o, n):
    if o["I"] in ("p", "pandora"):
        return list(range(n)), dict(db=texts.db_rows(rng, n, broken=0, layers=rng.randint(0, 5)))
    if o["I"] in ("q", "qasm"):
        ids = list(range(n))
        gs = gen.gates(rng, n, rng.randint(1, 8), kinds=["h", "h", "s", "sdg", "x", "z", "cx", "cx", "cx"] + (["t", "tdg"] if rng.random() < .4 else []) + (["cz"] if rng.random() < .2 else []))
        for g in gs:
            if "ct" in g and rng.random() < .7:
                g["ct"] = None
        return ids, dict(qasm="\n".join(["OPENQASM 2.0;", 'include "qelib1.inc";', "qreg q[%d];" % n] + [gate_text(g) for g in gs]) + "\n")
    ids = list(range(n)) if rng.random() < .5 else rng.sample(range(3 * n + 4), n)
    ks = ["op"] * 4 + ["S"] * 3 + ["mpm"] * 5 + ["meas", "init", "init", "rot"] + (["magic"] if rng.random() < .3 else [])
    return ids, dict(lli=lli_text(ids, gen.prog(rng, ids, rng.randint(1, 8), kinds=ks, waits=0, bad=0, first_id=500)) + rng.choice(["", "\n"]))


BAD = ["bogus", "Stream", "compact ", "progres", "Edpc", "q2"]


def options(rng):
    o = dict(PLAIN)
    n = rng.randint(1, 5)
    pick = lambda *v: rng.choice(v)
    o["I"] = pick("-", "lli", "l", "q", "qasm", "qasm", "qasm", "q", "p")
    if o["I"] == "p":
        o["I"] = pick("p", "pandora")
        o["port"] = pick("-", "-", "5432", "6000", "54321")
        o["dbport"] = o["port"] if o["port"] != "-" and rng.random() < .85 else "5432"
    lay = rng.random()
    if lay < .3:
        o["L"] = pick("compact", "compact", "compact_no_clogging")
    elif lay < .65:
        o["L"] = "edpc"
        o["lanes"], o["cond"], o["fact"] = pick(-1, -1, 1, 2), pick(-1, -1, 1, 0), rng.random() < .25
    elif lay < .9:
        o["lay"] = "layout.txt"
        o["rows"] = gen.open_grid(rng, n, magic=pick("dist", "none", "resv"), ys=pick(0, 0, 2), anc=pick(0, 0, 2))
        if isinstance(o["rows"], tuple):
            o["rows"] = o["rows"][0]
    o["P"] = pick("-", "-", "stream", "wave", "dag", "wave")
    o["local"] = rng.random() < .35
    o["notwists"] = rng.random() < (.35 if o["L"] == "edpc" or any("Y" in r for r in o["rows"]) else .03)
    if o["L"] == "edpc" and o["local"] and o["lanes"] != 2 and rng.random() < .5:
        o["P"] = "edpc"
    elif rng.random() < .03:
        o["P"] = "edpc"
    if o["I"] in ("q", "qasm", "p", "pandora"):
        o["corr"] = pick("-", "-", "never", "always")
    o["r"], o["g"] = pick("-", "-", "graph_search", "graph_search_cached"), pick("-", "-", "djikstra", "astar", "boost")
    o["opids"], o["graceful"], o["nostagger"] = rng.random() < .25, rng.random() < .25, rng.random() < .3
    o["dt"] = pick(-1, -1, 1, 2, 5, 13)
    o["t"] = pick("-", "-", "-", "600")
    o["out"], o["noslices"] = rng.random() < .4, rng.random() < .25
    if (o["out"] or o["noslices"]) and rng.random() < .6 or rng.random() < .03:
        o["f"] = pick("progress", "noprogress", "machine", "stats", "stats")
    if rng.random() < .3:
        o["printlli"] = pick("", "before", "sliced", "sliced", "sliced")
    elif rng.random() < .12:
        o["printdag"] = pick("", "input", "processedlli", "processedlli")
    o["input"] = pick("-", "-", "file") if o["I"] not in ("p", "pandora") else "-"
    o["strings"] = rng.random() < .3
    if rng.random() < .12 and o["printlli"] in ("-", "sliced") and o["printdag"] == "-":
        k = pick("L", "I", "f", "P", "r", "g", "printlli", "printdag", "input", "corr", "lay")
        if k == "input":
            o["input"] = "missing"
        elif k == "lay":
            o.update(L="-", lay="missing", rows=[])
        elif k != "corr" or o["I"] in ("q", "qasm", "p", "pandora"):
            o[k] = rng.choice([b for b in BAD if " " not in b])
    o["core"], o["src"] = source(rng, o, n)
    return o


NAMES = dict(L=["-L", "--layoutgenerator"], I=["-I", "--input-format"], f=["-f", "--output-format"], P=["-P", "--pipeline"], r=["-r", "--router"], g=["-g", "--graph-search"], t=["-t", "--timeout"],
             corr=["--cnotcorrections"], port=["--port"], printlli=["--printlli"], printdag=["--printdag"])
FLAGS = dict(fact="--explicitfactories", local="--local", notwists="--notwists", noslices="--noslices", opids="--op-ids", graceful="--graceful", nostagger="--nostagger")


def arguments(rng, o):
    a = []
    for k, v in NAMES.items():
        if o[k] != "-":
            a.append([rng.choice(v)] + ([o[k]] if o[k] else []))
    for k, v in FLAGS.items():
        if o[k]:
            a.append([v])
    for k, v in (("lanes", "--numlanes"), ("cond", "--condensed"), ("dt", "--disttime")):
        if o[k] != -1:
            a.append([v, str(o[k])])
    if o["lay"] != "-":
        a.append([rng.choice(["-l", "--layout"]), "layout.txt" if o["lay"] != "missing" else "nosuchlayout.txt"])
    if o["out"]:
        a.append([rng.choice(["-o", "--output"]), "out.file"])
    if o["input"] != "-":
        a.append([rng.choice(["-i", "--input"]), "input.txt" if o["input"] != "missing" else "nosuchinput.txt"])
    rng.shuffle(a)
    return [x for y in a for x in y]


def jobs(rng, opts, meanings):
    out = []
    for o, m in zip(opts, meanings):
        text = o["src"].get("lli", o["src"].get("qasm", ""))
        files = {}
        if o["lay"] not in ("-", "missing"):
            files["layout.txt"] = "\n".join(o["rows"])
        if o["input"] == "file":
            files["input.txt"] = text
        ref = dict(kind="none")
        if m["kind"] not in ("any", "refuse"):
            ref = dict(kind=m["kind"], job=dict(m["job"], t="slice", json=True, text=True, stats=True, maxs=250))
            ref["job"]["decomp"] = m["job"].get("decomp", True)
        db = dict(db=o["src"]["db"], port=o["dbport"]) if "db" in o["src"] else {}
        out.append(dict(t="cli", **db, opt=o, args=arguments(rng, o), stdin="" if o["input"] == "file" else text, files=files, strings=o["strings"], ref=ref))
    return out


def runs(quick, thorough):
    def part(c):
        n = quick if c["tier"] == "quick" else thorough
        opts = [options(c["rng"]) for _ in range(n)]
        path = os.path.join(c["work"].dir, "opts-%s.ndjson" % c["tag"])
        with open(path, "w") as f:
            for o in opts:
                f.write(json.dumps(o) + "\n")
        g, d, out = core.model_check(c["work"], "CliMC.tla", "CliMC.cfg", dict(OPTS=path), "cli", workers=4, timeout=1500)
        ms = {s["k"]: s["m"] for s in core.emitted(out)}
        js = jobs(c["rng"], opts, [ms[k + 1] for k in range(n)])
        kinds = {}
        for k in ms.values():
            kinds[k["kind"]] = kinds.get(k["kind"], 0) + 1
        r = core.validate(c["work"], c["vh"], "CliTrace.tla", js, c["tag"], secs=60)
        return dict(part="slicer program", module="CliTrace.tla", states=d + r.states, transitions=g, model=[g, d], meanings=kinds, jobs=r.jobs, events=r.events, kinds=r.kinds, fails=r.fails, joblist=js, samples=[dict(t="cli", args=js[0]["args"])])
    return part
