------------------------------- MODULE Lattice ------------------------------
(* The lattice as a state machine: what one time step does (Advance) and what each lattice-surgery instruction does when
   it is applied (Apply), when it can be applied (Allowed), and which of its free choices are legal (Legal).
   A state is [g, mag, tm, y]: grid, cells holding available magic states, countdowns, number of available Y states.
   `lay` is the layout, `cfg` the compiler configuration [local, twists, opids, pipe, ...].                       *)
EXTENDS Routing

InSeq(s, x) == \E i \in DOMAIN s : s[i] = x
Edpc(cfg) == cfg.pipe = "edpc"

------------------------------------------------------------------------------
(* Initial lattice: declared qubits on the layout's qubit cells in declaration order; then Y states, distillation regions,
   cells reserved for magic states, dead cells.                                                                          *)
CoreSide(lay, i) == lay.core[i]             \* <<row, col, top, bottom, left, right>>
InitLattice(lay, core) ==
  LET coreAt(c) == IF \E i \in 1..Len(core) : lay.core[i][1] = c[1] /\ lay.core[i][2] = c[2]
                   THEN LET i == CHOOSE i \in 1..Len(core) : lay.core[i][1] = c[1] /\ lay.core[i][2] = c[2]
                        IN <<TQubit, ANone, core[i], 6, 6, 4, 4, -1>>
                   ELSE NoPatch
      regs == {<<lay.regs[i][j][1], lay.regs[i][j][2], i, j>> : <<i, j>> \in {<<a, b>> \in (1..Len(lay.regs)) \X (1..200) : b <= Len(lay.regs[a])}}
      regAt == [c \in {<<x[1], x[2]>> : x \in regs} |-> CHOOSE x \in regs : x[1] = c[1] /\ x[2] = c[2]]
      cell(c) == IF InSeq(lay.dead, c) THEN AllConnected(TDead, ADead)
                 ELSE IF InSeq(lay.res, c) THEN AllConnected(TDist, ADist)
                 ELSE IF c \in DOMAIN regAt THEN LET x == regAt[c] p == lay.regs[x[3]][x[4]] IN <<TDist, ADist, -1, p[3], p[4], p[5], p[6], -1>>
                 ELSE IF InSeq(lay.ys, c) THEN Square(TQubit, -1)
                 ELSE coreAt(c)
  IN [g |-> [r \in 1..lay.rows |-> [k \in 1..lay.cols |-> cell(<<r, k>>)]], mag |-> {}, tm |-> lay.times, y |-> Len(lay.ys)]

------------------------------------------------------------------------------
(* One time step. *)
AdvPatch(p) ==
  IF p = NoPatch THEN p
  ELSE LET a == p[2] IN
       IF a = AMpm \/ a = AMeas THEN NoPatch
       ELSE IF a = ARot \/ a = AResv THEN p
       ELSE IF a = AEdpc THEN [p EXCEPT ![2] = AResv]
       ELSE LET q == <<p[1], IF a = AUnit THEN ANone ELSE a, p[3], 2*(p[4] \div 2), 2*(p[5] \div 2), 2*(p[6] \div 2), 2*(p[7] \div 2), p[8]>> IN q

\* cells reserved for magic states: vacated ones are refilled by a distillation with a fresh countdown, running ones count down
AdvReserved(lay, s, i) ==
  LET c == lay.res[i] p == At(s.g, c)
      s1 == IF p = NoPatch THEN [s EXCEPT !.g = Put(s.g, c, AllConnected(TDist, ADist)), !.tm[i] = lay.times[i]]
            ELSE IF p[1] = TDist THEN [s EXCEPT !.tm[i] = @ - 1] ELSE s
      ty == At(s1.g, c)[1]
  IN IF s1.tm[i] = 0 /\ ty = TDist
     THEN [s1 EXCEPT !.g = Put(s1.g, c, Square(TPrep, -1)), !.mag = @ \cup {c}] ELSE s1

\* distillation regions: when the countdown ends the first free output cell receives a magic state (lost if none is free)
AdvRegion(lay, s, i) ==
  IF s.tm[i] # 1 THEN [s EXCEPT !.tm[i] = @ - 1]
  ELSE LET os == lay.outs[i] f == {k \in 1..Len(os) : At(s.g, os[k]) = NoPatch}
       IN IF f = {} THEN [s EXCEPT !.tm[i] = lay.times[i]]
          ELSE LET c == os[Min(f)] IN [s EXCEPT !.tm[i] = lay.times[i], !.g = Put(s.g, c, Square(TPrep, -1)), !.mag = @ \cup {c}]

Advance(lay, st) ==
  LET s0 == [st EXCEPT !.g = [r \in 1..Len(st.g) |-> [c \in 1..Len(st.g[r]) |-> AdvPatch(st.g[r][c])]]]
  IN IF lay.resv THEN FoldLeft(LAMBDA s, i : AdvReserved(lay, s, i), s0, [i \in 1..Len(lay.res) |-> i])
     ELSE FoldLeft(LAMBDA s, i : AdvRegion(lay, s, i), s0, [i \in 1..Len(st.tm) |-> i])

------------------------------------------------------------------------------
(* Two-cell ("local") operations. k: prepy bprep bmeas tmeas split merge move.  a: target/preserved/source cell, b: the other. *)
OpenFor(cfg, g, c) == At(g, c) = NoPatch \/ (Edpc(cfg) /\ At(g, c)[2] \in {AEdpc, AResv})
Idle(g, c) == At(g, c) # NoPatch /\ ~IsActive(At(g, c))
LocalOk(cfg, g, o) ==
  CASE o.k = "prepy" -> At(g, o.a) = NoPatch
    [] o.k = "bprep" -> OpenFor(cfg, g, o.a) /\ OpenFor(cfg, g, o.b)
    [] o.k = "split" -> Idle(g, o.a) /\ OpenFor(cfg, g, o.b)
    [] o.k = "move"  -> Idle(g, o.a) /\ OpenFor(cfg, g, o.b)
    [] OTHER -> Idle(g, o.a) /\ Idle(g, o.b)                  \* bmeas, tmeas, merge
LocalDo(g, o) ==
  CASE o.k = "prepy" -> Put(g, o.a, [Square(TQubit, o.i1) EXCEPT ![2] = AUnit])
    [] o.k = "bprep" -> ActivateBoth(Put(Put(g, o.a, Square(TQubit, o.i1)), o.b, Square(TQubit, o.i2)), o.a, o.b)
    [] o.k = "bmeas" -> LET h == ActivateBoth(g, o.a, o.b) IN [h EXCEPT ![o.a[1]][o.a[2]][2] = AMeas, ![o.b[1]][o.b[2]][2] = AMeas]
    [] o.k = "tmeas" -> ActivateBoth(g, o.a, o.b)
    [] o.k = "split" -> ActivateBoth(Put(g, o.b, Square(TQubit, o.i1)), o.a, o.b)
    [] o.k = "merge" -> LET h == ActivateBoth(g, o.a, o.b) IN [h EXCEPT ![o.b[1]][o.b[2]][2] = AMeas]
    [] o.k = "move"  -> LET id == IF o.i1 >= 0 THEN o.i1 ELSE At(g, o.a)[3]
                            h == ActivateBoth(Put(g, o.b, Square(TQubit, id)), o.a, o.b)
                        IN [h EXCEPT ![o.a[1]][o.a[2]][2] = AMeas, ![o.a[1]][o.a[2]][3] = -1]
\* applies ops[from+1..] until one cannot be applied yet: <<grid, number applied in all>>
RECURSIVE RunLocal(_, _, _, _)
RunLocal(cfg, g, ops, done) ==
  IF done = Len(ops) \/ ~LocalOk(cfg, g, ops[done + 1]) THEN <<g, done>>
  ELSE RunLocal(cfg, LocalDo(g, ops[done + 1]), ops, done + 1)

------------------------------------------------------------------------------
(* Instructions. *)
Operating(i) ==
  CASE i.k \in {"meas", "op", "rot", "reset"} -> {i.t}
    [] i.k = "magic" -> {i.t, i.near} \ {-1}
    [] i.k = "y" -> {i.t}                     \* the same instruction also gives the state back, which needs no place near a patch
    [] i.k = "init" -> {i.t} \cup (IF i.pn = <<>> THEN {} ELSE {i.pn[1]})
    [] i.k = "mpm" -> {i.obs[j][1] : j \in DOMAIN i.obs}
    [] i.k = "bell" -> {i.s1, i.s2, i.l1[1], i.l2[1]}
    [] i.k = "cnot" -> {i.c, i.t, i.s1, i.s2}
    [] i.k = "busy" -> ToSetC(i.ids) \ {-1}
    [] OTHER -> {}
Deps(i) == Operating(i) \cup ToSetC(i.cl)

XZ(op) == op \in {"X", "Z"}
\* the long-range operation needs at least two cells between its operands
TooClose(g, s, sop, t, top) == TouchOk(g, s, sop, t, top) \/ \E c \in Nbrs(g, s) \cap Nbrs(g, t) : EdpcOpen(g, c) /\ Faces(g, s, c, sop) /\ Faces(g, t, c, top)
\* {"ok"}, {"err"} (cannot be done yet: wait) or {"exc"} (rejected); two elements where either answer is acceptable
RouteRes(g, s, sop, t, top) ==
  IF ~XZ(sop) \/ ~XZ(top) THEN {"err", "exc"} ELSE IF Routable(g, s, sop, t, top) THEN {"ok"} ELSE {"err"}
NearInit(g, n) == {c \in Nbrs(g, CellOf(g, n[1])) : At(g, c) = NoPatch /\ Faces(g, CellOf(g, n[1]), c, n[2])}
YCells(lay, g) == {lay.ys[j] : j \in {k \in DOMAIN lay.ys : At(g, lay.ys[k]) # NoPatch /\ At(g, lay.ys[k])[1] = TQubit /\ At(g, lay.ys[k])[3] = -1}}
IdleY(lay, g) == {c \in YCells(lay, g) : ~IsActive(At(g, c))}
YPool(cfg) == ~(cfg.local /\ cfg.twists)               \* may pre-distilled states be used?
ZNbrs(g, id) == {c \in Nbrs(g, CellOf(g, id)) : At(g, c) = NoPatch /\ Faces(g, CellOf(g, id), c, "Z")}

Allowed(lay, cfg, st, i) ==
  LET g == st.g IN
  CASE i.k = "decl" -> {"exc"}
    [] i.k = "reset" -> {"ok"}
    [] i.k = "busy" -> {"ok"}
    [] i.k = "meas" -> IF HasId(g, i.t) THEN {"ok"} ELSE {"err"}
    [] i.k = "op" -> IF ~HasId(g, i.t) THEN {"err"}
                     ELSE IF i.op = "S" THEN (IF Edpc(cfg) THEN {"exc"} ELSE LET c == CellOf(g, i.t) IN IF IsActive(At(g, c)) THEN {"err"} ELSE RouteRes(g, c, "X", c, "Z"))
                     ELSE IF IsActive(At(g, CellOf(g, i.t))) THEN {"err"} ELSE {"ok"}
    [] i.k = "mpm" -> IF Len(i.obs) # 2 THEN {"exc"}
                      ELSE LET a == i.obs[1] b == i.obs[2] IN
                           IF ~HasId(g, a[1]) \/ ~HasId(g, b[1]) THEN {"err"}
                           ELSE LET ca == CellOf(g, a[1]) cb == CellOf(g, b[1]) busy == IsActive(At(g, ca)) \/ IsActive(At(g, cb)) IN
                                IF cfg.local THEN (IF ~Adjacent(ca, cb) THEN {"exc"} ELSE IF ~Faces(g, ca, cb, a[2]) \/ ~Faces(g, cb, ca, b[2]) THEN {"exc"} ELSE IF busy THEN {"err"} ELSE {"ok"})
                                ELSE IF Edpc(cfg) THEN {"exc"} ELSE IF busy THEN {"err"} ELSE RouteRes(g, ca, a[2], cb, b[2])
    [] i.k = "init" -> IF i.pn = <<>> THEN (IF \E j \in DOMAIN lay.anc : At(g, lay.anc[j]) = NoPatch THEN {"ok"} ELSE {"err"})
                       ELSE IF ~HasId(g, i.pn[1]) THEN {"exc", "err"} ELSE IF ~XZ(i.pn[2]) THEN {"exc"} ELSE IF NearInit(g, i.pn) = {} THEN {"err"} ELSE {"ok"}
    [] i.k \in {"bell", "cnot"} ->
         IF ~cfg.local THEN {"exc"}
         ELSE LET s == IF i.k = "bell" THEN i.l1 ELSE <<i.c, "Z">>  t == IF i.k = "bell" THEN i.l2 ELSE <<i.t, "X">> IN
              IF ~HasId(g, s[1]) \/ ~HasId(g, t[1]) THEN {"err"}
              ELSE LET cs == CellOf(g, s[1]) ct == CellOf(g, t[1]) IN
                   IF i.k = "cnot" /\ (IsActive(At(g, cs)) \/ IsActive(At(g, ct))) THEN {"err"}
                   ELSE IF ~XZ(s[2]) \/ ~XZ(t[2]) THEN {"err", "exc"}
                   ELSE IF Edpc(cfg) /\ i.k = "cnot" THEN {"ok", "err"} \cup (IF TooClose(g, cs, "Z", ct, "X") THEN {"exc"} ELSE {})   \* decided in module SliceTrace (edge-disjoint rule)
                   ELSE LET n == RouteLen(g, cs, s[2], ct, t[2]) IN IF n < 0 THEN {"err"} ELSE IF n < 2 THEN (IF i.k = "bell" THEN {"err"} ELSE {"exc"}) ELSE {"ok"}
    [] i.k = "rot" -> IF ~HasId(g, i.t) THEN {"err"}
                      ELSE LET c == CellOf(g, i.t) p == At(g, c) IN
                           IF p[2] \notin {ANone, AUnit} \/ IsActive([p EXCEPT ![2] = ANone]) THEN {"err"}
                           ELSE IF \E n \in Nbrs(g, c) : At(g, n) = NoPatch THEN {"ok"} ELSE {"err"}
    [] i.k = "magic" -> IF lay.times = <<>> THEN {"exc"} ELSE IF st.mag = {} THEN {"err"} ELSE IF ~HasId(g, i.near) THEN {"exc", "err"} ELSE {"ok"}
    [] i.k = "y" -> IF HasId(g, i.t) THEN {"ok"}
                    ELSE IF YPool(cfg) /\ IdleY(lay, g) # {} THEN (IF HasId(g, i.near) THEN {"ok"} ELSE {"exc", "err"})
                    ELSE IF YPool(cfg) /\ st.y # 0 THEN {"err"}
                    ELSE IF ~cfg.twists THEN {"err"} ELSE IF ~HasId(g, i.near) THEN {"exc", "err"} ELSE IF ZNbrs(g, i.near) = {} THEN {"err"} ELSE {"ok"}

(* The choice an instruction leaves open: a path (merge region), a cell (placement, neighbour, magic or Y state), or nothing.
   Legal: the choices the specification permits.                                                                          *)
Nearest(S, c) == {x \in S : \A z \in S : L1(x, c) <= L1(z, c)}
Legal(lay, cfg, st, i, ch) ==
  LET g == st.g IN
  CASE i.k = "op" /\ i.op = "S" -> LET c == CellOf(g, i.t) IN ch # <<>> /\ LegalPath(g, ch, c, "X", c, "Z")
    [] i.k = "mpm" /\ ~cfg.local -> LegalPath(g, ch, CellOf(g, i.obs[1][1]), i.obs[1][2], CellOf(g, i.obs[2][1]), i.obs[2][2])
    [] i.k = "init" -> IF i.pn = <<>> THEN InSeq(lay.anc, ch) /\ At(g, ch) = NoPatch ELSE ch \in NearInit(g, i.pn)
    [] i.k = "rot" -> ch \in Nbrs(g, CellOf(g, i.t)) /\ At(g, ch) = NoPatch
    [] i.k = "magic" -> ch \in Nearest(st.mag, CellOf(g, i.near))
    [] i.k = "y" -> IF HasId(g, i.t) THEN TRUE
                    ELSE IF YPool(cfg) /\ IdleY(lay, g) # {} THEN ch \in Nearest(IdleY(lay, g), CellOf(g, i.near))
                    ELSE ch \in ZNbrs(g, i.near)
    [] OTHER -> TRUE

\* The state after applying i with choice ch (assumed allowed and legal). opid: the operation id drawn on a merge region.
Apply(lay, cfg, st, i, ch, opid) ==
  LET g == st.g
      path(s, t) == LET h == FoldLeft(LAMBDA x, k : Put(x, ch[k], RegionPatch(ch, k, s, t, opid)), g, [k \in 1..Len(ch) |-> k])
                    IN IF ch = <<>> THEN ActivateBoth(h, s, t) ELSE ActivateAt(ActivateAt(h, s, ch[Len(ch)]), t, ch[1])
  IN CASE i.k = "meas" -> LET c == CellOf(g, i.t) IN [st EXCEPT !.g[c[1]][c[2]][2] = AMeas]
       [] i.k = "op" /\ i.op = "S" -> LET c == CellOf(g, i.t) IN [st EXCEPT !.g = path(c, c)]
       [] i.k = "op" /\ i.op = "H" -> LET c == CellOf(g, i.t) IN [st EXCEPT !.g[c[1]][c[2]] = [Turn(@) EXCEPT ![2] = AUnit]]
       [] i.k = "mpm" -> LET a == CellOf(g, i.obs[1][1]) b == CellOf(g, i.obs[2][1]) IN
                         IF cfg.local THEN [st EXCEPT !.g = ActivateBoth(g, a, b)] ELSE [st EXCEPT !.g = path(a, b)]
       [] i.k = "init" -> [st EXCEPT !.g = Put(g, ch, Square(TQubit, i.t))]
       [] i.k = "rot" -> LET c == CellOf(g, i.t)
                             r(x, y) == [SetSide(<<TRoute, ARot, -1, 0, 0, 0, 0, -1>>, DirTo(x, y), Joined) EXCEPT ![8] = -1]
                         IN [st EXCEPT !.g = Put(Put(g, c, r(c, ch)), ch, r(ch, c))]
       [] i.k = "magic" -> [st EXCEPT !.g[ch[1]][ch[2]] = <<TQubit, ANone, i.t, @[4], @[5], @[6], @[7], @[8]>>, !.mag = @ \ {ch}]
       [] i.k = "y" -> IF HasId(g, i.t) THEN LET c == CellOf(g, i.t) IN [st EXCEPT !.g[c[1]][c[2]][3] = -1, !.y = @ + 1]
                       ELSE IF At(g, ch) # NoPatch THEN [st EXCEPT !.g[ch[1]][ch[2]][3] = i.t, !.y = @ - 1]
                       ELSE [st EXCEPT !.g = Put(g, ch, [Square(TQubit, i.t) EXCEPT ![2] = AUnit])]
       [] OTHER -> st                                            \* Pauli operators, reset

\* What the patch looks like after its rotation.
Turned(p) == Turn(<<p[1], ANone, p[3], p[4], p[5], p[6], p[7], -1>>)
------------------------------------------------------------------------------
(* Invariants of a lattice state. *)
NoDuplicateIds(g) == \A a, b \in Cells(g) : At(g, a) # NoPatch /\ At(g, b) # NoPatch /\ At(g, a)[3] >= 0 /\ At(g, a)[3] = At(g, b)[3] => a = b
YCount(lay, st) == st.y = Cardinality(YCells(lay, st.g))
MagicIsPrepared(st) == \A c \in Cells(st.g) : (At(st.g, c) # NoPatch /\ At(st.g, c)[1] = TPrep) <=> c \in st.mag
\* every joined side of a merge region is matched by the neighbouring cell, and every region cell has one or two joined sides
RegionOk(g, c) ==
  LET p == At(g, c) J == {d \in 1..4 : Side(p, d) = Joined} IN
  /\ \A d \in 1..4 : Side(p, d) \in {0, Joined}
  /\ Cardinality(J) = 2
  /\ \A d \in J : LET n == Step(c, d) IN In(g, n) /\ At(g, n) # NoPatch /\ Active(Side(At(g, n), Opp(d)))
                     /\ (Act(At(g, n)) = AMpm /\ Type(At(g, n)) = TRoute => Side(At(g, n), Opp(d)) = Joined)
RegionsOk(g) == \A c \in Cells(g) : At(g, c) # NoPatch /\ At(g, c)[1] = TRoute /\ At(g, c)[2] = AMpm => RegionOk(g, c)
\* an active side of a qubit patch faces something joined to it
SidesOk(g) == \A c \in Cells(g) : At(g, c) # NoPatch /\ At(g, c)[1] = TQubit =>
                \A d \in 1..4 : Active(Side(At(g, c), d)) => LET n == Step(c, d) IN In(g, n) /\ At(g, n) # NoPatch /\ Active(Side(At(g, n), Opp(d)))
RotationsOk(g) == \A c \in Cells(g) : At(g, c) # NoPatch /\ At(g, c)[2] = ARot =>
                \E d \in 1..4 : Side(At(g, c), d) = Joined /\ In(g, Step(c, d)) /\ At(g, Step(c, d)) # NoPatch /\ At(g, Step(c, d))[2] = ARot /\ Side(At(g, Step(c, d)), Opp(d)) = Joined
=============================================================================
