"""Inputs for the translators (gates -> instructions, S substitution, rotation injection)."""
import gen, families

CT, AP = ["CF", "TF", "BELL"], ["D", "C", "T"]


def style(rng, gs):
    for g in gs:
        if g["g"] in ("cx", "cz"):
            g["ct"], g["ap"] = rng.choice(CT), rng.choice(AP)
        if g["g"] == "reset":
            g["reg"] = "q"
    return gs


def rz(rng, n, good=True):
    a, b = rng.choice([(1, 1), (1, 2), (1, 4)]) if good else rng.choice([(1, 8), (3, 4), (2, 1), (1, 3), (0, 1), (5, 2)])
    return dict(g="rz", q=rng.randrange(n), n=a, d=b, neg=rng.random() < .3)


def gatelist(rng, n, ln, bad=0.0, kinds=None):
    gs = style(rng, gen.gates(rng, n, ln, kinds=kinds))
    for k in range(len(gs)):
        if rng.random() < .12:
            gs[k] = rz(rng, n, rng.random() >= bad)
        elif rng.random() < bad / 3:
            gs[k] = dict(g="reset", q=rng.randrange(n), reg="p")
    return gs


def gates_job(gs, n, corr, local):
    return dict(t="trans", src=dict(gates=gs, n=n), corr=corr, local=local, x=dict(mode="gates", gates=gs, n=n, corr=corr, local=local, reg="q"))


def gates(rng, tier):
    large = rng.random() < .03
    n = rng.randint(6, 14) if large else rng.randint(1, 5)
    bad = rng.choice([0, 0, 0, .3])
    return gates_job(gatelist(rng, n, rng.randint(20, 60) if large else rng.randint(0, 12), bad), n, rng.random() < .3, rng.random() < .3)


def subst(rng, tier):
    cat, rot = rng.random() < .5, rng.random() < .5
    inj = ("cat" if cat else "tele") + ("rot" if rot else "")
    local = rng.random() < .5
    if rng.random() < .4:
        n = rng.randint(1, 4)
        gs = style(rng, gen.gates(rng, n, rng.randint(1, 8), kinds=["s", "s", "sdg", "h", "t", "x", "z", "cx", "cz", "reset"]))
        return dict(t="trans", src=dict(gates=gs, n=n), local=local, inj=[inj], base=True, x=dict(mode="s", rotate=rot, cat=cat, fresh=True))
    large = rng.random() < .03
    c = gen.core(rng, rng.randint(6, 14) if large else rng.randint(1, 4))
    p = gen.prog(rng, c, rng.randint(40, 90) if large else rng.randint(0, 14), local=local, kinds=["S"] * 5 + ["op"] * 4 + families.MIX + (families.LOC if local else []), unb=True)
    return dict(t="trans", src=dict(core=c, prog=p), local=local, inj=[inj], base=True, idstart=rng.choice([1000, 5000]), x=dict(mode="s", rotate=rot, cat=cat, fresh=False))


def expo(rng, tier):
    r = rng.random()
    j = dict(t="trans", base=True, x=dict(mode="expo", expo=[]))
    if r < .35:
        n = rng.randint(1, 9)
        j["layout"] = rng.choice([dict(gen="compact", n=n, nc=rng.random() < .5), dict(gen="edpc", n=n, lanes=1, cond=rng.random() < .5, fact=False, pre=rng.random() < .5)])
    elif r < .6:
        rows, info = gen.grid(rng)
        n = info["n"]
        j["layout"] = dict(rows=rows)
    else:
        n = rng.randint(1, 5)
    gates = rng.random() < .3
    c = list(range(n)) if gates else gen.core(rng, rng.randint(1, n) if "layout" in j else n)
    if "layout" not in j:
        j["x"]["expo"] = [[q] + rng.choice([[True, False], [False, True], [True, False], [False, True], [True, True]]) for q in c if rng.random() < .85]
    if gates:
        gs = style(rng, gen.gates(rng, n, rng.randint(1, 9), kinds=["s", "h", "h", "t", "x", "cx", "cx", "cz"]))
        j.update(src=dict(gates=gs, n=n), local=rng.random() < .5)
    else:
        p = gen.prog(rng, c, rng.randint(40, 90) if rng.random() < .03 else rng.randint(1, 16), local=True, kinds=["mpm"] * 7 + ["cnot"] * 4 + ["S"] * 3 + ["op"] * 6 + ["rot"] * 2 + ["init", "meas", "magic", "reset", "bell"], cl_extra=.3)
        j.update(src=dict(core=c, prog=p))
    if j["x"]["expo"]:
        j["inj"] = [dict(expo=j["x"]["expo"])]
    elif "layout" in j:
        j["inj"] = ["rot"]
    else:
        j["x"]["expo"] = [[c[0], True, False]]
        j["inj"] = [dict(expo=j["x"]["expo"])]
    return j


def composed(rng, tier):
    """the chains of translators the command line builds"""
    n = rng.randint(1, 4)
    k = rng.choice(["compact", "catrot", "telerot"])
    local = k != "compact"
    gs = style(rng, gen.gates(rng, n, rng.randint(1, 5), kinds=["s", "sdg", "h", "t", "x", "z", "cx", "cz"]))
    j = dict(t="trans", src=dict(gates=gs, n=n), local=local, x=dict(mode="all", gates=gs))
    if k == "compact":
        j.update(layout=dict(gen="compact", n=n, nc=rng.random() < .5), inj=["rot", "tele"])
    else:
        j["inj"] = [k]
    return j
