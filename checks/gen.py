"""Random inputs for the conformance harness. Every choice comes from the generator's own seed."""
import random

OPS = "XZ"


def grid(rng, rows=(3, 6), cols=(3, 7), dist=None, ys=None, magic=None, anc=True, dead=True, nq=None, fill=0.55):
    """A random text layout. Returns (rows, info)."""
    while True:
        R, C = rng.randint(*rows), rng.randint(*cols)
        g = [['r'] * C for _ in range(R)]
        free = [(r, c) for r in range(R) for c in range(C)]
        rng.shuffle(free)
        n = nq if nq else rng.randint(1, max(1, min(5, R * C // 5)))
        mode = magic if magic is not None else rng.choice(["none", "dist", "dist", "res"])
        if mode == "dist":
            for k in range(rng.randint(1, 2)):
                d = rng.choice("0123456789")
                r, c = rng.choice(free)
                blob = [(r, c)]
                for _ in range(rng.randint(0, 4)):
                    br, bc = rng.choice(blob)
                    dr, dc = rng.choice([(0, 1), (1, 0), (0, -1), (-1, 0)])
                    if 0 <= br + dr < R and 0 <= bc + dc < C:
                        blob.append((br + dr, bc + dc))
                for (r, c) in blob:
                    g[r][c] = d
        elif mode == "res":
            for _ in range(rng.randint(1, 3)):
                r, c = rng.choice(free)
                g[r][c] = 'M'
        free = [(r, c) for (r, c) in free if g[r][c] == 'r']
        k = 0
        if len(free) < n + 3:
            continue

        def take(ch, m):
            nonlocal k
            for _ in range(m):
                if k < len(free) - 2:
                    r, c = free[k]
                    g[r][c] = ch
                    k += 1
        take('Q', n)
        if anc:
            take('A', rng.randint(*(anc if isinstance(anc, tuple) else (0, 3))))
        if ys or (ys is None and rng.random() < 0.3):
            take('Y', rng.randint(1, 2))
        if dead and rng.random() < 0.5:
            take('X', rng.randint(1, max(1, R * C // 6)))
        if rng.random() < 0.1:
            take('T', 1)
        if rng.random() < 0.1:
            take('D', 1)
        rows_ = ["".join(x) for x in g]
        t = "".join(rows_)
        return rows_, dict(n=t.count('Q'), anc=t.count('A'), ys=t.count('Y'), res='M' in t, dist=any(ch.isdigit() for ch in t), R=R, C=C)


def open_grid(rng, n, R=None, C=None, magic="none", ys=0, anc=2):
    """A roomy layout: qubits on every other cell."""
    C = C or 2 * n + 1
    rows = [['r'] * C for _ in range(R or 5)]
    for i in range(n):
        rows[2][1 + 2 * i if 1 + 2 * i < C else i] = 'Q'
    for i in range(anc):
        rows[4][(2 * i + 1) % C] = 'A'
    for i in range(ys):
        rows[0][(3 * i) % C] = 'Y'
    if magic == "res":
        rows[0][C - 1] = 'M'
        rows[0][C // 2] = 'M'
    elif magic == "dist":
        rows[0][C - 1] = '0'
        rows[0][C - 2] = '0'
    return ["".join(r) for r in rows]


def core(rng, n):
    """ids of n declared qubits: often 0..n-1, otherwise any ids in any order"""
    r = rng.random()
    return list(range(n)) if r < .6 else rng.sample(range(4 * n + 10), n) if r < .94 else [x + rng.choice([250, 65530, 10 ** 8]) for x in rng.sample(range(4 * n + 10), n)]


def prog(rng, core, n, local=False, waits=0.25, nears=True, kinds=None, cl_extra=0.2, bad=0.05, first_id=None, ysok=True, unb=False):
    """A random instruction list on fresh ids. Live ids are tracked, so most instructions make sense."""
    live = list(core)
    nid = first_id if first_id is not None else (max(core) + 1 if core else 0)
    out = []
    ybound = []
    kinds = kinds or (["op"] * 5 + ["S"] * 2 + ["mpm"] * 6 + ["meas"] * 2 + ["init"] * 4 + ["magic"] * 2 + ["y"] * 2 + ["rot"] * 3 + ["reset"] + (["cnot"] * 6 + ["bell"] * 2 if local else []))
    for _ in range(n):
        k = rng.choice(kinds)
        i = None
        if k in ("op", "S", "meas", "rot", "reset") and not live:
            k = "init"
        if k in ("mpm", "cnot", "bell") and len(live) < 2:
            k = "init"
        if k in ("magic", "y") and not live:
            k = "init"
        if k == "op":
            i = dict(k="op", t=rng.choice(live), op=rng.choice("XYZHH"), dag=False)
        elif k == "S":
            i = dict(k="op", t=rng.choice(live), op="S", dag=rng.random() < 0.3)
        elif k == "mpm":
            a, b = rng.sample(live, 2)
            i = dict(k="mpm", obs=[[a, rng.choice(OPS)], [b, rng.choice(OPS)]], neg=rng.random() < 0.2)
        elif k == "meas":
            t = rng.choice(live)
            live.remove(t)
            if t in ybound:
                ybound.remove(t)
            i = dict(k="meas", t=t, p=rng.choice("XZY"), neg=rng.random() < 0.2)
        elif k == "init":
            pn = []
            cl = []
            if live and nears and rng.random() < 0.6:
                pn = [rng.choice(live), rng.choice(OPS)]
                cl = [pn[0]]
            i = dict(k="init", t=nid, st=rng.choice("0+"), pn=pn, cl=cl)
            live.append(nid)
            nid += 1
        elif k == "magic":
            near = rng.choice(live)
            i = dict(k="magic", t=nid, near=near, cl=[near])
            live.append(nid)
            nid += 1
        elif k == "y":
            if unb and ybound and rng.random() < 0.5:
                t = ybound.pop()
                i = dict(k="y", t=t, near=t, cl=[])
                live.remove(t)
                near = rng.choice(live) if live else t
                i = dict(k="y", t=t, near=near, cl=[near] if near != t else [])
            else:
                near = rng.choice(live)
                i = dict(k="y", t=nid, near=near, cl=[near])
                live.append(nid)
                ybound.append(nid)
                nid += 1
        elif k == "rot":
            i = dict(k="rot", t=rng.choice(live))
        elif k == "reset":
            i = dict(k="reset", t=rng.choice(live))
        elif k == "cnot":
            a, b = rng.sample(live, 2)
            i = dict(k="cnot", c=a, t=b, s1=nid, s2=nid + 1)
            nid += 2
        elif k == "bell":
            a, b = rng.sample(live, 2)
            i = dict(k="bell", s1=nid, s2=nid + 1, l1=[a, rng.choice(OPS)], l2=[b, rng.choice(OPS)])
            live += [nid, nid + 1]
            nid += 2
        i.setdefault("cl", [])
        if rng.random() < cl_extra and live:
            x = rng.choice(live)
            if x not in i["cl"]:
                i["cl"].append(x)
        i["w"] = rng.randint(0, 6) if rng.random() < waits else -1
        out.append(i)
    return out


def gates(rng, nq, n, kinds=None, edpc=False):
    out = []
    kinds = kinds or ["h", "h", "s", "sdg", "t", "tdg", "x", "y", "z", "cx", "cx", "cx", "cz", "reset"]
    for _ in range(n):
        g = rng.choice(kinds)
        if g in ("cx", "cz"):
            if nq < 2:
                continue
            c, t = rng.sample(range(nq), 2)
            out.append(dict(g=g, c=c, q=t))
        else:
            out.append(dict(g=g, q=rng.randrange(nq)))
    return out
