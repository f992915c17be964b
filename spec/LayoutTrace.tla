---------------------------- MODULE LayoutTrace -----------------------------
(* Layouts built by the real code, checked against LayoutSpec. *)
EXTENDS LayoutSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job
vars == <<l, job>>
Fail(clause, detail) == PrintT("FAIL|C14|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Chk(c, clause, detail) == IF c THEN TRUE ELSE Fail(clause, detail)

TextLayout(e) ==
  IF ~WellFormed(e.chars) THEN Chk(e.r = "exc", "malformed text layout accepted", e.chars)
  ELSE /\ Chk(e.r = "ret", "text layout rejected", <<e.chars, e.msg>>)
       /\ e.r # "ret" \/
          LET p == Parse(e.chars, e.dt, e.stag) IN
          /\ Chk(SameLayout(e.lay, p), "text layout misread: text, observed, specified", <<e.chars, e.lay, p>>)
          /\ Chk(RegionsMatch(e.lay, p), "distillation regions or their outputs misread: observed, specified", <<e.lay.regs, e.lay.outs, p.regs, p.outs>>)

Disjoint(q) == \A i, j \in DOMAIN q : i < j => q[i] \cap q[j] = {}
Sources(lay) == /\ (lay.res # <<>>) # (lay.regs # <<>>)
                /\ lay.resv <=> lay.res # <<>>
                /\ Len(lay.times) = Len(lay.regs) + Len(lay.res)
                /\ \A i \in DOMAIN lay.regs : lay.outs[i] # <<>>
                /\ \A i \in DOMAIN lay.res : OpenN(lay, lay.res[i]) # {}
CommonOk(e) ==
  LET lay == e.lay IN
  /\ Chk(Len(lay.core) = e.spec.n /\ Cardinality(CoreCells(lay)) = e.spec.n, "number of qubit cells", <<e.spec, lay.core>>)
  /\ Chk(\A i \in DOMAIN lay.core : SubSeq(lay.core[i], 3, 6) = <<6, 6, 4, 4>>, "qubit patches are not standard squares", lay.core)
  /\ Chk(Disjoint(Roles(lay)), "a cell has two roles", e.spec)
  /\ Chk(\A s \in ToSetC(Roles(lay)) : s \subseteq Cells(Board(lay)), "a cell outside the lattice", e.spec)
  /\ Chk(Sources(lay), "magic state source", <<e.spec, lay.regs, lay.outs, lay.res, lay.times>>)
  /\ Chk(\A i \in DOMAIN lay.regs : ToSetC(lay.outs[i]) = {n \in UNION {Nbrs(Board(lay), RC(lay.regs[i][j])) : j \in DOMAIN lay.regs[i]} : n \in Open(lay) \ ToSetC(lay.anc)}, "outputs of a distillation region", <<e.spec, lay.outs>>)
  /\ Chk(\A i \in DOMAIN lay.times : lay.times[i] = (IF e.stag /\ i <= Len(lay.regs) THEN e.dt + i - 1 ELSE e.dt), "periods", lay.times)
  /\ Chk(Connected(lay), "routing cells not connected", e.spec)
InSeqC(q, x) == \E i \in DOMAIN q : q[i] = x
CompactOk(e) ==
  LET lay == e.lay k == (e.spec.n + 1) \div 2 IN
  /\ Chk(lay.rows = 3, "compact layout has three rows", lay.rows)
  /\ Chk({c \in CoreCells(lay) : c[1] = 1} = {<<1, j>> : j \in 1..k} /\ {c \in CoreCells(lay) : c[1] = 3} = {<<3, j>> : j \in 1..(e.spec.n - k)}, "qubits on the first and last row", lay.core)
  /\ Chk(\A j \in 1..(k + 2) : <<2, j>> \in Open(lay) \/ InSeqC(lay.res, <<2, j>>) \/ k = 0, "bus not free", lay)
  /\ Chk(\A c \in CoreCells(lay) : (IF c[1] = 1 THEN 2 ELSE 1) \in OpenDirs(lay, c), "a qubit does not reach the bus", lay.core)
  /\ Chk(lay.anc # <<>> /\ \A i \in DOMAIN lay.anc : OpenN(lay, lay.anc[i]) # {}, "ancilla cells", lay.anc)
  /\ Chk(e.spec.nc <=> lay.res # <<>>, "reserved magic state cells exactly without clogging", lay.res)
  /\ Chk(lay.ys = <<>> /\ lay.dead = <<>>, "no Y states or dead cells", 0)
(* The square of an edpc layout (without the border of factories) and what lies along its edges *)
Off(s) == IF s.fact THEN 5 ELSE 0

SquareOf(e) == {c \in Cells(Board(e.lay)) : c[1] > Off(e.spec) /\ c[1] <= e.lay.rows - Off(e.spec) /\ c[2] > Off(e.spec) /\ c[2] <= e.lay.cols - Off(e.spec)}
Edge(e, k) == {c \in SquareOf(e) : CASE k = 1 -> c[1] = Off(e.spec) + 1 [] k = 2 -> c[1] = e.lay.rows - Off(e.spec)
                                     [] k = 3 -> c[2] = Off(e.spec) + 1 [] OTHER -> c[2] = e.lay.cols - Off(e.spec)}
Magic(e) == {RC(x) : x \in ToSetC(e.lay.res)} \cup UNION {ToSetC(e.lay.outs[i]) : i \in DOMAIN e.lay.outs}
YCells(e) == {RC(x) : x \in ToSetC(e.lay.ys)}
(* Without condensing, qubits and resources sit on the crossings of a grid of pitch lanes + 1 *)
OnGrid(e, c) == LET o == Off(e.spec) + 1 IN (c[1] - o) % (e.spec.lanes + 1) = 0 /\ (c[2] - o) % (e.spec.lanes + 1) = 0
(* condensed: the lines of that grid in pairs without a lane between the two of a pair *)
Lines(e) == LET w == e.lay.rows - 2 * Off(e.spec) - 1 IN {0, w} \cup {x \in 1..w : \E k \in 1..w : x = k + e.spec.lanes * ((k + 1) \div 2)}
OnPairs(e, c) == LET o == Off(e.spec) + 1 q == Lines(e) IN c[1] - o \in q /\ c[2] - o \in q
Ring(e) == UNION {Edge(e, k) : k \in 1..4}
EdgesOk(e) ==
  LET s == e.spec IN
  /\ Chk(e.lay.rows = e.lay.cols, "edpc layout is not square", <<e.lay.rows, e.lay.cols>>)
  /\ Chk(Magic(e) \subseteq Ring(e) /\ YCells(e) \subseteq Ring(e) /\ CoreCells(e.lay) \cap Ring(e) = {}, "resources on the border, qubits inside", <<s, Magic(e), YCells(e), CoreCells(e.lay)>>)
  /\ Chk((s.fact /\ ~s.pre) \/ \A k \in 1..4 : Edge(e, k) \cap Magic(e) # {}, "an edge without magic states", <<s, Magic(e)>>)
  /\ Chk(~s.pre \/ \A k \in 1..4 : Edge(e, k) \cap YCells(e) # {}, "an edge without Y states", <<s, YCells(e)>>)
  /\ Chk(\A c \in CoreCells(e.lay) \cup YCells(e) \cup (IF s.fact THEN {} ELSE Magic(e)) : IF s.cond THEN OnPairs(e, c) ELSE OnGrid(e, c), "qubits and Y states on the grid of the lanes", <<s, CoreCells(e.lay), YCells(e)>>)
  /\ Chk(s.cond \/ s.fact \/ Magic(e) \cup YCells(e) = {c \in Ring(e) : OnGrid(e, c)}, "resources at every crossing of the border", <<s, Magic(e), YCells(e)>>)
EdpcOk(e) ==
  LET lay == e.lay s == e.spec IN
  /\ EdgesOk(e)
  /\ Chk(s.cond \/ \A c \in CoreCells(lay) : OpenDirs(lay, c) = 1..4, "a qubit of an edpc layout has an occupied neighbour", <<s, lay.core>>)
  /\ Chk(~s.cond \/ \A c \in CoreCells(lay) : OpenDirs(lay, c) \cap {1, 2} # {} /\ OpenDirs(lay, c) \cap {3, 4} # {}, "a qubit of a condensed edpc layout lacks a free side of each kind", <<s, lay.core>>)
  /\ Chk(s.pre <=> lay.ys # <<>>, "pre-distilled Y states", <<s, lay.ys>>)
  /\ Chk(\A i \in DOMAIN lay.ys : OpenN(lay, lay.ys[i]) # {}, "a Y state that cannot be reached", <<s, lay.ys>>)
  /\ Chk(s.fact <=> lay.regs # <<>>, "explicit factories", <<s, Len(lay.regs)>>)
  /\ Chk(s.fact \/ lay.dead = <<>>, "dead cells without factories", s)
  /\ Chk(s.cond \/ \A a, b \in CoreCells(lay) : a # b => Max({Abs(a[1] - b[1]), Abs(a[2] - b[2])}) > s.lanes, "fewer free lanes between qubits than requested", <<s, lay.core>>)

Generated(e) ==
  IF e.r # "ret" THEN Fail("generator rejected the request", <<e.spec, e.msg>>)
  ELSE CommonOk(e) /\ (IF e.spec.gen = "compact" THEN CompactOk(e) ELSE EdpcOk(e))

Check(e) == CASE e.e = "layout" -> IF "chars" \in DOMAIN e THEN TextLayout(e) ELSE Generated(e)
              [] e.e \in {"dead", "uncaught"} -> Fail("the code under test crashed or hung", e)
              [] OTHER -> TRUE
Init == l = 1 /\ job = 0
Next == l <= Len(Trace) /\ l' = l + 1 /\ job' = (IF Trace[l].e = "job" THEN Trace[l].job ELSE job) /\ Check(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
