"""Inputs for the readers and printers: instruction lines and files, OpenQASM lines and files. Nothing here says what is right:
the texts go through the real code and the TLA+ modules judge what came back."""
import gen, families

NAMES = ["DeclareLogicalQubitPatches", "Init", "0", "MeasureSinglePatch", "1", "MultiBodyMeasure", "2", "RequestMagicState", "3", "LogicalPauli", "4", "HGate", "5",
         "SGate", "6", "XGate", "YGate", "ZGate", "RotateSingleCellPatch", "7", "BellPairInit", "8", "RequestYState", "9", "BellBasedCNOT", "10", "Reset"]


def ident(rng):
    r = rng.random()
    return str(rng.randrange(12) if r < .5 else rng.randrange(10 ** rng.randint(1, 9)) if r < .95 else rng.choice([2147483647, 2147483648, 4294967295, 999999999, 1000000000]))


def pairs(rng, n):
    ids = []
    while len(ids) < n:
        x = ident(rng)
        if x not in ids:
            ids.append(x)
    return ",".join("%s:%s" % (i, rng.choice("XYZXZI")) for i in ids)


def operands(rng, name):
    i = lambda: ident(rng)
    if name.startswith("Decl"):
        return [",".join(dict.fromkeys(i() for _ in range(rng.randint(1, 6))))]
    if name in ("Init", "0"):
        return [i(), rng.choice(["|0>", "0", "|+>", "+"])] + ([pairs(rng, 1)] if rng.random() < .5 else [])
    if name in ("MeasureSinglePatch", "1"):
        return [i(), rng.choice("XYZI")]
    if name in ("MultiBodyMeasure", "2"):
        return [pairs(rng, rng.randint(1, 5))]
    if name in ("RequestMagicState", "3", "RequestYState", "9"):
        return [i(), i()]
    if name in ("LogicalPauli", "4"):
        return [i(), rng.choice("XYZ")]
    if name in ("BellPairInit", "8"):
        return [i(), i(), pairs(rng, 2)]
    if name in ("BellBasedCNOT", "10"):
        return [i(), i(), i(), i()]
    return [i()]


def mangle(rng, s, alphabet):
    k = rng.randrange(len(s) + 1)
    r = rng.random()
    if r < .35:
        return s[:k] + s[k + 1:]
    if r < .65:
        return s[:k] + rng.choice(alphabet) + s[k:]
    if r < .85:
        return s[:k] + rng.choice(alphabet) + s[k + 1:]
    return s[:k]


ALPHA = "0123456789XYZIS|>+,: -abGx."


def lli_line(rng, bad=.35):
    n = rng.choice(NAMES)
    s = " ".join([n] + operands(rng, n))
    while rng.random() < bad:
        s = mangle(rng, s, ALPHA)
    return s


def lli(rng, tier):
    return dict(t="lli", lines=[lli_line(rng) for _ in range(60)])


def lli_print(rng, tier):
    out = []
    for _ in range(6):
        c = gen.core(rng, rng.randint(1, 5))
        out += gen.prog(rng, c, 12, local=True, kinds=families.MIX + families.LOC)
    ids = gen.core(rng, rng.randint(1, 9))
    out.append(dict(k="decl", ids=ids))
    return dict(t="print", ins=out)


def lli_file(rng, tier):
    ls = ["DeclareLogicalQubitPatches " + operands(rng, "Decl")[0]] if rng.random() < .93 else []
    if rng.random() < .04:     # many ids, many lines
        ls = ["DeclareLogicalQubitPatches " + ",".join(map(str, rng.sample(range(2000), rng.randint(100, 400))))]
        ls += [lli_line(rng, .001) for _ in range(rng.randint(80, 200))]
    ls += [lli_line(rng, .04) for _ in range(rng.randint(0, 12))]
    for _ in range(rng.choice([0, 0, 1, 3])):
        ls.insert(rng.randint(0, len(ls)), "")
    return dict(t="llifile", text="\n".join(ls) + rng.choice(["", "\n", "\n\n"]))


def lli_slice(rng, tier):
    """A program sliced with the text of every instruction printed as it is applied."""
    j = families.mixed((3, families.prog(waits=.1)), (3, families.prog(local=True, kinds=["cnot"] * 3 + ["bell"] * 2 + ["mpm"] * 3 + ["y"] * 3 + ["op", "rot", "S"], waits=.1)),
                       (1, families.compact()), (2, families.edpc()), (1, families.edpcprog()))(rng, tier)
    j["text"] = True
    return j


QALPHA = "0123456789qx[](),;:/*-+ .pi%h"
QNAMES = ["x", "y", "z", "s", "t", "h", "sdg", "tdg"]
NOTES = ["", "", "", " // %ZXWithMBMControlFirst", " // %ZXWithMBMTargetFirst", " // %BellBased", " // %AncillaFreePlacement", " // %AncillaNextToControl", " // %AncillaNextToTarget",
         " // %BellBased,AncillaNextToTarget", " // %AncillaNextToControl,ZXWithMBMTargetFirst", " // a note", " // AncillaNextToTarget", "// BellBased"]


def qnum(rng):
    r = rng.random()
    return str(rng.randrange(10) if r < .6 else rng.randrange(10 ** rng.randint(1, 9)) if r < .92 else rng.choice([2147483647, 2147483648, 4294967295, 4294967296, 99999999999, 18446744073709551616]))


def angle(rng):
    k = lambda: str(rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 128, 255, 1024, 1000003]))
    s = rng.choice([lambda: "pi/" + k(), lambda: k() + "*pi/" + k(), lambda: k() + "*pi", lambda: "0*pi/" + k(), lambda: "pi*-1"])()
    return ("-" if rng.random() < .3 and s != "pi*-1" else "") + s


def qasm_line(rng, bad=.35, reg=None, size=None):
    def op():
        return "%s[%s]" % (reg or rng.choice(["q", "q", "anc", "r1", "Q_2"]), rng.randrange(size) if size else qnum(rng))
    r = rng.random()
    sep = rng.choice([",", ",", ", ", ",  "])
    if r < .4:
        s = rng.choice(QNAMES) + " " + op() + ";"
    elif r < .65:
        a, b = op(), op()
        while b == a or b.split("[")[1] == a.split("[")[1]:
            b = op() if size != 1 else "q[7]"
        s = rng.choice(["cx", "cx", "cz", "crz(pi/%d)" % rng.choice([1, 2, 4, 8, 64])]) + " " + a + sep + b + ";" + rng.choice(NOTES)
    elif r < .85:
        s = "rz(%s) %s;" % (angle(rng), op())
    elif r < .9:
        s = "reset " + op() + ";"
    elif r < .95:
        s = rng.choice(["", "  ", "OPENQASM 2.0;", 'include "qelib1.inc";', "creg c[4];", "barrier q[0],q[1];", "// text", "//", "   // x q[0];"])
    else:
        s = rng.choice(["measure q[0] -> c[0];", "id q[0];", "ccx q[0],q[1],q[2];", "swap q[0],q[1];", "rx(pi/2) q[0];", "u3(0,0,0) q[1];", "cy q[0],q[1];", "sx q[0];", "cx q[0];", "cz q[0],q[1],q[2];", "h;"])
    if rng.random() < .1:
        s = " " * rng.randint(1, 3) + s
    while rng.random() < bad:
        s = mangle(rng, s, QALPHA)
    return s


def qasm_lines(rng, tier):
    j = dict(t="qline", lines=[qasm_line(rng) for _ in range(60)], x={"anc": "D"})
    if rng.random() < .5:
        j["anc"] = rng.choice("DCT")
        j["x"]["anc"] = j["anc"]
    return j


def qasm_file(rng, tier):
    large = rng.random() < .04
    reg, n = rng.choice(["q", "qreg0", "a_b"]), rng.randint(100, 400) if large else rng.randint(2, 12)
    head = rng.choice([[], ["OPENQASM 2.0;"], ["OPENQASM 2.0;", 'include "qelib1.inc";'], ["// start", "", "OPENQASM 2.0;"]])
    body = [qasm_line(rng, .0005 if large else .03, reg, n) for _ in range(rng.randint(80, 200) if large else rng.randint(0, 14))]
    ls = head + (["qreg %s[%d];" % (reg, n)] if rng.random() < .93 else []) + body
    for _ in range(rng.choice([0, 0, 1, 3])):
        ls.insert(rng.randint(0, len(ls)), rng.choice(["", " ", "   ", "// note", "creg c[3];"]))
    if rng.random() < .05:
        ls.insert(rng.randint(0, len(ls)), "qreg again[2];")
    j = dict(t="qasm", text="\n".join(ls) + rng.choice(["", "\n", "\n\n"]), decomp=rng.random() < .4, x={"anc": "D"})
    if rng.random() < .3:
        j["anc"] = rng.choice("DCT")
        j["x"]["anc"] = j["anc"]
    return j


ONE = [(8, "1.0"), (8, "1"), (7, "1.0"), (7, "-1"), (7, "0.5"), (7, "-0.5"), (7, "0.25"), (7, "-0.25"), (9, ""), (10, ""), (27, ""), (28, ""), (29, ""), (30, ""), (14, ""), (13, "")]


def db_rows(rng, n, broken=0, layers=4, open_=0):
    """A circuit table: the inputs, then layers of gates on different qubits; `broken`/`open_` are chances per gate of a row outside the supported set."""
    rows = [[0, 0, q, -1, ""] for q in range(n)]
    for k in range(1, layers + 1):
        qs = rng.sample(range(n), n)
        only = rng.random() < .15          # a layer without gates
        m = len(rows)
        while qs and (len(rows) == m or rng.random() < .7):
            q = qs.pop()
            if only:
                rows.append([k, rng.choice([14, 13, 14, 1]), q, -1, ""])
            elif rng.random() < broken:
                t = rng.choice([2, 3, 4, 12, 19, 20, 21, 22, 23, 24, 25, 26, 31, 7, 7])
                rows.append([k, t, q, qs.pop() if qs and t in (19, 20, 31) else -1, rng.choice(["0.3", "2", "0.75", "0", "-0.1", "0.125"]) if t in (2, 3, 4, 7) else ""])
            elif rng.random() < open_:
                t = rng.choice([5, 6, 17, 11, 15, 16])
                if t in (15, 16, 17) and not qs:
                    t = 11
                rows.append([k, t, q, qs.pop() if t in (15, 16, 17) else -1, rng.choice(["1.0", "0.5", "0.25", "-0.5"]) if t in (5, 6, 17) else ""])
            elif qs and rng.random() < .35:
                rows.append([k, 18, q, qs.pop(), rng.choice(["1.0", "1"])])
            else:
                t, p = rng.choice(ONE)
                rows.append([k, t, q, -1, p])
    if rng.random() < .3:
        rows += [[layers + 1, 1, q, -1, ""] for q in range(n)]
    if rng.random() < .3:                  # tables have no order of their own
        rng.shuffle(rows)
    return rows


def db(rng, tier):
    n = rng.randint(1, 6) if rng.random() < .95 else rng.randint(20, 60)
    j = dict(t="db", rows=db_rows(rng, n, broken=rng.choice([0, 0, 0, .05]), layers=rng.randint(0, 6) if rng.random() < .95 else rng.randint(10, 30), open_=rng.choice([0, 0, 0, .15])), asks=rng.choice([1, 1, 2, 3]))
    if rng.random() < .05:
        j.update(rng.choice([dict(down=True), dict(port="6000"), dict(port="6000", ask="6000"), dict(ask="77")]))
    return j
