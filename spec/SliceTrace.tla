------------------------------ MODULE SliceTrace ----------------------------
(* Trace validation of compilations: every recorded event of the real slicer (instructions applied, slices emitted, probes
   of single instructions) is matched against Lattice and against the scheduling rules. A clause that does not hold is
   printed as FAIL|<properties>|<job>|<line>|<clause>|<detail>; validation resynchronises on the observed slice and goes on. *)
EXTENDS Lattice, BellLocal, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, S
vars == <<l, S>>

Fail(tags, clause, detail) == PrintT("FAIL|" \o tags \o "|" \o ToString(S.job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
\* evaluates to TRUE always; reports when c is FALSE
Chk(c, tags, clause, detail) == IF c THEN TRUE ELSE Fail(tags, clause, detail)

Ev == Trace[l]
StOf(e) == [g |-> e.g, mag |-> ToSetC(e.mag), tm |-> e.tm, y |-> e.y]
None == [ok |-> FALSE, v |-> <<>>]
Some(x) == [ok |-> TRUE, v |-> x]

RECURSIVE NextSlice(_)
NextSlice(k) == IF k > Len(Trace) \/ Trace[k].e \in {"end", "done", "dead", "job", "uncaught"} THEN 0 ELSE IF Trace[k].e = "slice" THEN k ELSE NextSlice(k + 1)

KindTags(i) ==
  CASE i.k = "mpm" -> "C02,C04" [] i.k = "op" -> (IF i.op = "S" THEN "C02,C04" ELSE "C02")
    [] i.k \in {"rot", "busy"} -> "C02,C07" [] i.k = "magic" -> "C02,C06" [] i.k = "y" -> "C02,C20"
    [] i.k \in {"bell", "cnot"} -> "C02,C12,C13" [] i.k = "init" -> "C01,C02" [] OTHER -> "C02"

\* the properties that promise something about instructions of these kinds
OfKinds(I) ==
  LET has(ks) == \E i \in I : i.k \in ks
  IN (IF has({"bell", "cnot"}) THEN ",C12,C13" ELSE "") \o (IF has({"rot", "busy"}) THEN ",C07" ELSE "")
     \o (IF has({"magic"}) THEN ",C06" ELSE "") \o (IF has({"y"}) THEN ",C20" ELSE "")

------------------------------------------------------------------------------
(* Choices are read off the slice in which they became visible. *)
NewRegion(g, obs, c) == At(g, c) = NoPatch /\ At(obs, c) # NoPatch /\ Type(At(obs, c)) = TRoute /\ Act(At(obs, c)) = AMpm
RECURSIVE Follow(_, _, _, _, _, _)
Follow(g, obs, c, from, s, acc) ==
  LET ds == {d \in 1..4 : Side(At(obs, c), d) = Joined /\ Step(c, d) # from}
      ds2 == IF ds = {} /\ from = s THEN {DirTo(c, from)} ELSE ds
  IN IF Cardinality(ds2) # 1 THEN None
     ELSE LET n == Step(c, CHOOSE d \in ds2 : TRUE) IN
          IF n = s THEN Some(Append(acc, c))
          ELSE IF ~In(g, n) \/ ~NewRegion(g, obs, n) \/ Len(acc) > 300 THEN None ELSE Follow(g, obs, n, c, s, Append(acc, c))
InferPath(g, obs, s, sop, t, top) ==
  LET starts == {n \in Nbrs(g, t) : NewRegion(g, obs, n) /\ Faces(g, t, n, top) /\ Side(At(obs, n), DirTo(n, t)) = Joined /\ Active(Side(At(obs, t), DirTo(t, n)))}
      cand == {p \in {Follow(g, obs, n, t, s, <<>>) : n \in starts} : p.ok}
  IN IF cand # {} THEN CHOOSE p \in cand : TRUE
     ELSE IF TouchOk(g, s, sop, t, top) /\ Active(Side(At(obs, s), DirTo(s, t))) /\ Active(Side(At(obs, t), DirTo(t, s))) THEN Some(<<>>) ELSE None
AnyCell(cs) == IF cs = {} THEN None ELSE Some(CHOOSE c \in cs : TRUE)
\* where a new patch was put; if it started rotating in the same slice, its cell is known from the rotation that follows
RECURSIVE RotCell(_, _)
RotCell(k, t) == IF k > Len(Trace) \/ Trace[k].e \in {"end", "done", "dead", "job"} \/ k > l + 400 THEN {}
                 ELSE IF Trace[k].e = "ins" /\ Trace[k].i.k = "busy" /\ InSeq(Trace[k].i.ids, t) /\ Len(Trace[k].i.after) = 1 THEN {<<Trace[k].i.after[1][1], Trace[k].i.after[1][2]>>}
                 ELSE RotCell(k + 1, t)
RECURSIVE RotSoon(_, _)
RotSoon(k, t) == k <= Len(Trace) /\ Trace[k].e = "ins" /\ ((Trace[k].i.k = "rot" /\ Trace[k].i.t = t) \/ RotSoon(k + 1, t))
CellNow(obs, t) == LET cs == CellsOf(obs, t) IN IF cs # {} \/ ~RotSoon(l, t) THEN cs ELSE {c \in RotCell(l, t) : In(obs, c)}

Infer(lay, cfg, st, i, obs) ==
  LET g == st.g IN
  CASE i.k = "op" /\ i.op = "S" -> LET c == CellOf(g, i.t) IN IF At(obs, c) = NoPatch THEN None ELSE InferPath(g, obs, c, "X", c, "Z")
    [] i.k = "mpm" /\ ~cfg.local -> LET s == CellOf(g, i.obs[1][1]) t == CellOf(g, i.obs[2][1]) IN
          IF At(obs, s) = NoPatch \/ At(obs, t) = NoPatch THEN None ELSE InferPath(g, obs, s, i.obs[1][2], t, i.obs[2][2])
    [] i.k = "rot" -> LET c == CellOf(g, i.t) p == At(obs, c) IN
          IF p = NoPatch \/ p[1] # TRoute \/ p[2] # ARot THEN None ELSE AnyCell({n \in Nbrs(g, c) : Side(p, DirTo(c, n)) = Joined})
    [] i.k = "init" -> AnyCell(CellNow(obs, i.t))
    [] i.k = "magic" -> AnyCell(CellNow(obs, i.t) \cap st.mag)
    [] i.k = "y" /\ ~HasId(g, i.t) -> AnyCell(CellNow(obs, i.t))
    [] OTHER -> Some(<<>>)

------------------------------------------------------------------------------
(* Job state. *)
EmptyJob(j, x) == [job |-> j, x |-> x, live |-> FALSE]
Strip(i) == [f \in DOMAIN i \ {"w", "sets", "txt"} |-> i[f]]
Begin(e) ==
  LET n == Len(e.prog) dp == [j \in 1..n |-> Deps(e.prog[j])]
      st0 == IF Len(e.core) > Len(e.lay.core) THEN [g |-> <<<<NoPatch>>>>, mag |-> {}, tm |-> <<>>, y |-> 0] ELSE InitLattice(e.lay, e.core)
  IN [job |-> S.job, x |-> S.x, live |-> TRUE, lay |-> e.lay, cfg |-> e.cfg, prog |-> e.prog,
      deps |-> dp,
      preds |-> [j \in 1..n |-> IF e.cfg.pipe = "stream" THEN 1..(j-1) ELSE {i \in 1..(j-1) : dp[i] \cap dp[j] # {}}],
      conf |-> [j \in 1..n |-> {i \in 1..(j-1) : dp[i] \cap dp[j] # {}}],
      strip |-> [j \in 1..n |-> Strip(e.prog[j])],
      st |-> st0, core |-> e.core,
      applied |-> {}, done |-> {}, ready |-> {},          \* program indices: started; finished; whose turn had come when the slice began
      conts |-> <<>>,                                     \* unfinished multi-step instructions
      kz |-> 0, ki |-> 0, nf |-> 0, fol |-> FALSE, lag |-> FALSE, opids |-> {}, touched |-> {}, unbound |-> FALSE, fresh |-> {}, bad |-> FALSE, unk |-> FALSE,
      waits |-> [j \in 1..n |-> 0], pend |-> [j \in 1..n |-> 0], names |-> {}, used |-> {}, last |-> st0, cell0 |-> {}]

\* turn: every instruction this one depends on is complete
TurnSet(s) == {j \in (1..Len(s.prog)) \ s.applied : s.preds[j] \subseteq s.done}

\* what is printed for an instruction in its slice: its text, and the local operations it consists of there
TX == INSTANCE LliSpec
TextOk(i, suffix) == "txt" \notin DOMAIN i \/ (i.k = "op" /\ i.dag) \/ Chk(i.txt = TX!Shown(i) \o suffix, "C15", "printed text of an instruction: observed, specified", <<i.txt, TX!Shown(i) \o suffix>>)
LocalSuffix(did) == " [" \o TX!JoinWith([j \in DOMAIN did |-> TX!LocalText(did[j])], ";") \o "]"

------------------------------------------------------------------------------
(* One applied instruction. Each operator returns the next job state. *)
ObsHere == LET k == NextSlice(l) IN IF k = 0 THEN <<>> ELSE Trace[k].g
SameDims(g, h) == Len(g) = Len(h) /\ Len(g[1]) = Len(h[1])

\* multi-step instruction records: [k, idx, last, ...]
ContZ(idx, t) == [k |-> "Z", idx |-> idx, t |-> t, last |-> S.kz]
ContBusy(idx, c, n, p) == [k |-> "busy", idx |-> idx, c |-> c, nb |-> n, p |-> p, n |-> 0, last |-> S.kz]
ContSelf(idx, i, ph, cnt) == [k |-> "self", idx |-> idx, i |-> i, ph |-> ph, cnt |-> cnt, last |-> S.kz]
DropSeq(s, k) == [j \in 1..(Len(s)-1) |-> IF j < k THEN s[j] ELSE s[j+1]]

\* --- local operation lists (long-range CNOT / Bell pair)
NewOpCells(i) == UNION {AllCells(i.sets[j]) : j \in DOMAIN i.sets}
FlatSets(i) == FoldLeft(LAMBDA a, j : a \o i.sets[j], <<>>, [j \in 1..Len(i.sets) |-> j])

\* run phases of an edge-disjoint-path CNOT: one phase per call
RunPhase(s, i, ph, cnt) ==
  LET r == RunLocal(s.cfg, s.st.g, i.sets[ph], cnt)
      full == r[2] = Len(i.sets[ph])
      fin == full /\ (ph = Len(i.sets) \/ (Edpc(s.cfg) /\ ph = 2 /\ \A k \in 3..Len(i.sets) : i.sets[k] = <<>>))
  IN [did |-> SubSeq(i.sets[ph], cnt + 1, r[2]), g |-> r[1], fin |-> fin, ph |-> IF full THEN ph + 1 ELSE ph, cnt |-> IF full THEN 0 ELSE r[2]]

MarkPath(g, path) == FoldLeft(LAMBDA h, j : IF At(h, path[j]) = NoPatch THEN Put(h, path[j], <<TRoute, AEdpc, -1, Wild, Wild, Wild, Wild, -1>>) ELSE h, g, [j \in 1..Len(path) |-> j])

StartLocal(s, idx, i) ==
  LET g == s.st.g
      cs == IF i.k = "cnot" THEN CellOf(g, i.c) ELSE CellOf(g, i.l1[1])
      ct == IF i.k = "cnot" THEN CellOf(g, i.t) ELSE CellOf(g, i.l2[1])
      sop == IF i.k = "cnot" THEN "Z" ELSE i.l1[2]
      top == IF i.k = "cnot" THEN "X" ELSE i.l2[2]
      flat == FlatSets(i)
      tag == IF Edpc(s.cfg) THEN "C13" ELSE "C12"
      path == IF i.k = "cnot" THEN PathOf(flat, cs, ct) ELSE <<>>
      bellEnds == {c \in AllCells(flat) : TRUE}
      okPath == IF i.k = "cnot"
                THEN path # <<>> /\ IF Edpc(s.cfg)
                                    THEN /\ \A k \in 1..(Len(path)-1) : Adjacent(path[k], path[k+1])
                                         /\ \A k \in DOMAIN path : (At(g, path[k]) = NoPatch \/ At(g, path[k])[2] = AEdpc \/ path[k] \in s.fresh)
                                         /\ Adjacent(ct, path[1]) /\ Faces(g, ct, path[1], top) /\ Adjacent(cs, path[Len(path)]) /\ Faces(g, cs, path[Len(path)], sop)
                                    ELSE LegalPath(g, path, cs, sop, ct, top)
                ELSE \A c \in AllCells(flat) : At(g, c) = NoPatch
      okSem == IF i.k = "cnot" THEN CnotListOk(flat, cs, ct) ELSE TRUE
  IN IF i.sets = <<>> \/ flat = <<>> THEN [ok |-> ~Fail(tag, "no decomposition", i), path |-> <<>>]
     ELSE [ok |-> /\ Chk(okPath \/ s.bad, tag \o (IF Edpc(s.cfg) THEN "" ELSE ",C05,C01"), "path of the long-range operation is not a path of free cells between the right sides", <<i, path>>)
                  /\ Chk(okSem, tag, "local operations do not implement the operation", i)
                  /\ Chk(Edpc(s.cfg) \/ ~okPath \/ s.bad \/ i.k # "cnot" \/ Len(path) = RouteLen(g, cs, sop, ct, top) \/ s.cfg.gs # "dij" \/ s.cfg.router # "custom", "C05", "path not shortest", <<i, path>>)
                  /\ okPath, path |-> path]

\* Bell pair creation: the path joins the two requested sides, and the Bell pair ends up on its two end cells under the requested ids.
BellEnds(g, i, flat) ==
  LET cs == CellOf(g, i.l1[1]) ct == CellOf(g, i.l2[1])
      cells == AllCells(flat)
      as == {c \in cells : Adjacent(c, cs) /\ Faces(g, cs, c, i.l1[2])} bs == {c \in cells : Adjacent(c, ct) /\ Faces(g, ct, c, i.l2[2])}
      idAt(k) == \* cell holding bell id k at the end: follow creation and moves
        FoldLeft(LAMBDA c, j : LET o == flat[j] IN
                    IF o.k = "bprep" /\ o.i1 = k THEN o.a ELSE IF o.k = "bprep" /\ o.i2 = k THEN o.b
                    ELSE IF o.k = "move" /\ (o.i1 = k \/ (o.i1 < 0 /\ o.a = c)) THEN o.b ELSE c, <<0, 0>>, [j \in 1..Len(flat) |-> j])
      a == idAt(i.s1) b == idAt(i.s2)
  IN a \in as /\ b \in bs /\ BellListOk(flat, a, b)
     /\ LET p == Chain(flat, <<b>>, b, a) IN Len(p) = Cardinality(cells)

Applied(s, idx, i, st2) == [s EXCEPT !.st = st2, !.applied = @ \cup {idx}]
Finish(s, idx) == [s EXCEPT !.done = @ \cup {idx}, !.fol = FALSE]

BeginIns(s, idx, i, obs) ==
  LET al == Allowed(s.lay, s.cfg, s.st, i)
      s1 == [s EXCEPT !.applied = @ \cup {idx}]
      s2 == Finish(s1, idx)                                        \* assume complete
      tags == KindTags(i)
  IN IF ~("ok" \in al) THEN (IF s.bad \/ Fail(tags, "instruction applied although it is not possible", i) THEN
                              (IF i.k \in {"rot"} \/ (i.k = "op" /\ i.op = "S") \/ i.k \in {"cnot", "bell"} THEN [s1 EXCEPT !.bad = TRUE, !.done = @ \cup {idx}] ELSE [s2 EXCEPT !.bad = TRUE]) ELSE s2)
     ELSE IF i.k \in {"cnot", "bell"} THEN
        LET q == StartLocal(s, idx, i) IN
        IF ~q.ok THEN [s2 EXCEPT !.bad = TRUE]
        ELSE LET chkb == IF i.k = "bell" /\ ~s.bad THEN Chk(BellEnds(s.st.g, i, FlatSets(i)), "C12", "Bell pair operations do not create the Bell pair between the requested sides", i) ELSE TRUE
                 g0 == IF Edpc(s.cfg) THEN MarkPath(s.st.g, q.path) ELSE s.st.g
                 r == RunPhase([s EXCEPT !.st.g = g0], i, 1, 0)
                 s3 == [s1 EXCEPT !.st.g = r.g, !.fresh = @ \cup ToSetC(q.path), !.used = IF Edpc(s.cfg) THEN @ \cup {<<idx, q.path, CellOf(s.st.g, i.t), CellOf(s.st.g, i.c), i.sets>>} ELSE @]
             IN IF TextOk(i, LocalSuffix(r.did)) /\ chkb /\ r.fin THEN Finish(s3, idx) ELSE [s3 EXCEPT !.conts = Append(@, ContSelf(idx, i, r.ph, r.cnt)), !.fol = TRUE]
     ELSE IF obs = <<>> THEN [s2 EXCEPT !.bad = TRUE]
     ELSE LET ch == Infer(s.lay, s.cfg, s.st, i, obs) IN
          IF ~ch.ok THEN (IF i.k \in {"init", "magic", "y"} /\ RotSoon(l, i.t) THEN [s2 EXCEPT !.bad = TRUE, !.unk = TRUE] ELSE IF s.bad \/ Fail(tags, "effect of the instruction is not visible in the slice", i) THEN [s2 EXCEPT !.bad = TRUE] ELSE s2)
          ELSE IF ~Legal(s.lay, s.cfg, s.st, i, ch.v) THEN (IF s.bad \/ Fail(tags \o (IF i.k \in {"rot", "y"} THEN ",C01" ELSE ""), "illegal choice", <<i, ch.v>>) THEN [s2 EXCEPT !.bad = TRUE] ELSE s2)
          ELSE LET isPath == (i.k = "mpm" /\ ~s.cfg.local) \/ (i.k = "op" /\ i.op = "S")
                   a == IF ~isPath THEN <<>> ELSE IF i.k = "mpm" THEN <<CellOf(s.st.g, i.obs[1][1]), i.obs[1][2], CellOf(s.st.g, i.obs[2][1]), i.obs[2][2]>> ELSE <<CellOf(s.st.g, i.t), "X", CellOf(s.st.g, i.t), "Z">>
                   short == isPath /\ s.cfg.router = "custom" /\ s.cfg.gs = "dij"
                   c1 == Chk(~short \/ Len(ch.v) = RouteLen(s.st.g, a[1], a[2], a[3], a[4]), "C05", "region is not a shortest one", <<i, ch.v>>)
                   opid == IF isPath /\ ch.v # <<>> /\ s.cfg.opids THEN At(obs, ch.v[1])[8] ELSE -1
                   c2 == Chk(~isPath \/ ch.v = <<>> \/ (s.cfg.opids <=> (opid >= 0 /\ opid \notin s.opids)), "C02,C18", "operation id of a merge region missing or not fresh", <<i, opid>>)
                   st2 == Apply(s.lay, s.cfg, s.st, i, ch.v, opid)
                   s3 == [s1 EXCEPT !.st = st2, !.opids = IF opid >= 0 THEN @ \cup {opid} ELSE @,
                                    !.touched = IF i.k \in {"op", "rot"} THEN @ \cup {i.t} ELSE @, !.unbound = @ \/ (i.k = "y" /\ HasId(s.st.g, i.t))]
                   c3 == TextOk(i, IF i.k = "mpm" /\ s.cfg.local THEN LocalSuffix(<<[k |-> "tmeas", a |-> CellOf(s.st.g, i.obs[1][1]), b |-> CellOf(s.st.g, i.obs[2][1])]>>)
                                   ELSE IF i.k = "y" /\ ~HasId(s.st.g, i.t) /\ At(s.st.g, ch.v) = NoPatch THEN LocalSuffix(<<[k |-> "prepy", a |-> ch.v, b |-> <<>>]>>) ELSE "")
               IN IF ~(c1 /\ c2 /\ c3) THEN s3
                  ELSE IF i.k = "rot" THEN [s3 EXCEPT !.conts = Append(@, ContBusy(idx, CellOf(s.st.g, i.t), ch.v, Turned(At(s.st.g, CellOf(s.st.g, i.t))))), !.fol = TRUE]
                  ELSE IF i.k = "op" /\ i.op = "S" THEN [s3 EXCEPT !.conts = Append(@, ContZ(idx, i.t)), !.fol = TRUE]
                  ELSE Finish(s3, idx)

ContIns(s, k, i) ==
  LET c == s.conts[k] IN
  CASE c.k = "Z" -> LET okz == Chk("ok" \in Allowed(s.lay, s.cfg, s.st, i), "C02,C03", "corrective term applied to a busy or absent patch", i)
                        s1 == [s EXCEPT !.conts = DropSeq(@, k)] IN IF okz THEN Finish(s1, c.idx) ELSE s1
    [] c.k = "busy" ->
         LET n == c.n + 1 g == s.st.g
             still == At(g, c.c) # NoPatch /\ At(g, c.nb) # NoPatch /\ At(g, c.c)[2] = ARot /\ At(g, c.nb)[2] = ARot IN
         IF n < 3 THEN [s EXCEPT !.conts[k].n = n, !.conts[k].last = s.kz, !.fol = TRUE]
         ELSE LET okc == Chk(still, "C07", "rotation region was disturbed", <<c.c, c.nb>>)
                  s1 == [s EXCEPT !.conts = DropSeq(@, k), !.st.g = Put(Put(g, c.c, c.p), c.nb, IF still THEN NoPatch ELSE At(g, c.nb)), !.touched = @ \cup {c.p[3]}]
              IN IF okc THEN Finish(s1, c.idx) ELSE s1
    [] c.k = "self" ->
         LET r == RunPhase(s, c.i, c.ph, c.cnt)
             s1 == [s EXCEPT !.st.g = r.g]
             okb == IF i.k # "cnot" THEN TRUE
                    ELSE Chk(HasId(s.st.g, i.c) /\ HasId(s.st.g, i.t) /\ (~HasId(s.st.g, i.c) \/ ~IsActive(At(s.st.g, CellOf(s.st.g, i.c)))), "C12,C13", "operand of a long-range CNOT disturbed", i)
             okq == Chk(i.sets = c.i.sets, "C12,C13", "decomposition changed between steps", i)
             okt == TextOk(i, LocalSuffix(r.did))
         IN IF okt /\ okb /\ okq /\ r.fin THEN Finish([s1 EXCEPT !.conts = DropSeq(@, k)], c.idx)
            ELSE [s1 EXCEPT !.conts[k] = [c EXCEPT !.ph = r.ph, !.cnt = r.cnt, !.last = s.kz], !.fol = TRUE]

Matching(s, i) ==
  {k \in DOMAIN s.conts : LET c == s.conts[k] IN
     \/ c.k = "Z" /\ i.k = "op" /\ i.op = "Z" /\ i.t = c.t
     \/ c.k = "busy" /\ i.k = "busy" /\ {<<i.reg[j][1], i.reg[j][2]>> : j \in DOMAIN i.reg} = {c.c, c.nb}
     \/ c.k = "self" /\ i.k \in {"cnot", "bell"} /\ Strip(i) = s.strip[c.idx]}

OnIns(s, i) ==
  LET m == Matching(s, i) obs == ObsHere
      si == Strip(i)
      cand == {j \in (1..Len(s.prog)) \ s.applied : s.strip[j] = si}
      s0 == [s EXCEPT !.ki = @ + 1, !.fol = FALSE, !.lag = FALSE]
  IN IF m # {} THEN (IF s.conts[Min(m)].k = "self" \/ TextOk(i, "") THEN ContIns(s0, Min(m), i) ELSE ContIns(s0, Min(m), i))
     ELSE IF i.k = "busy" THEN (IF s.bad \/ Fail("C03,C07", "continuation of a rotation that is not in progress", i) THEN [s0 EXCEPT !.bad = TRUE] ELSE s0)
     ELSE IF cand = {} THEN (IF s.bad \/ Fail("C03", "instruction applied that is not pending (repeated, altered or invented)", i) THEN [s0 EXCEPT !.bad = TRUE] ELSE s0)
     ELSE LET j == Min(cand)
              early == s.conf[j] \ s.done
              okd == Chk(early = {}, "C03", "instruction applied before one it depends on was complete", <<i, s.prog[IF early = {} THEN j ELSE Min(early)]>>)
          IN IF okd THEN BeginIns(s0, j, i, obs) ELSE [BeginIns(s0, j, i, obs) EXCEPT !.bad = TRUE]

------------------------------------------------------------------------------
(* One emitted slice. *)
NormCell(p) == IF p # NoPatch /\ p[1] = TRoute /\ p[2] \in {AEdpc, AResv} THEN <<p[1], p[2], p[3], Wild, Wild, Wild, Wild, -1>> ELSE p
IdOf(p) == IF p = NoPatch THEN -1 ELSE p[3]
ActivesOf(p) == IF p = NoPatch THEN <<>> ELSE <<p[4] % 2, p[5] % 2, p[6] % 2, p[7] % 2>>
TyOf(p) == IF p = NoPatch THEN -1 ELSE p[1]
AcOf(p) == IF p = NoPatch THEN -1 ELSE p[2]

CompareSlice(s, o) ==
  LET cur == s.st g == cur.g h == o.g
      D == {c \in Cells(g) : NormCell(At(g, c)) # NormCell(At(h, c))}
      one(c) == <<c, At(g, c), At(h, c)>>
      first == IF D = {} THEN <<>> ELSE one(CHOOSE c \in D : TRUE)
      rotc == UNION {IF s.conts[k].k = "busy" THEN {s.conts[k].c, s.conts[k].nb} ELSE {} : k \in DOMAIN s.conts}
      D1 == {c \in D : TyOf(At(g, c)) # TyOf(At(h, c)) \/ IdOf(At(g, c)) # IdOf(At(h, c))}
      D4 == {c \in D : AcOf(At(g, c)) = AMpm \/ AcOf(At(h, c)) = AMpm \/ (TyOf(At(g, c)) = TQubit /\ TyOf(At(h, c)) = TQubit /\ ActivesOf(At(g, c)) # ActivesOf(At(h, c)))}
      D6 == {c \in D : TyOf(At(g, c)) \in {TDist, TPrep} \/ TyOf(At(h, c)) \in {TDist, TPrep}}
      D7 == {c \in D : AcOf(At(g, c)) = ARot \/ AcOf(At(h, c)) = ARot \/ c \in rotc}
      DL == {c \in D : c \in s.cell0}
      DY == {c \in D : InSeq(s.lay.ys, c)}
      d(X) == IF X = {} THEN <<>> ELSE one(CHOOSE c \in X : TRUE)
  IN IF D = {} /\ cur.mag = o.mag /\ cur.tm = o.tm /\ cur.y = o.y THEN TRUE
     ELSE /\ Chk(D1 = {} \/ s.bad, "C01", "patch vanished, moved, duplicated or overwritten: cell, specified, observed", d(D1))
          /\ Chk(D = {} \/ s.bad, "C02", "cell differs from the specified slice: cell, specified, observed", first)
          /\ Chk(D4 = {} \/ s.bad, "C04", "merge region or joined side differs: cell, specified, observed", d(D4))
          /\ Chk((D6 = {} \/ s.bad) /\ (cur.mag = o.mag \/ s.bad) /\ cur.tm = o.tm, "C06", "distillation differs: cell, specified, observed; magic states; countdowns", <<d(D6), cur.mag, o.mag, cur.tm, o.tm>>)
          /\ Chk(D7 = {} \/ s.unk, "C07", "rotation differs: cell, specified, observed", d(D7))
          /\ Chk(DL = {} \/ s.unk, IF Edpc(s.cfg) THEN "C13" ELSE "C12", "local operation differs: cell, specified, observed", d(DL))
          /\ Chk((DY = {} \/ s.bad) /\ (cur.y = o.y \/ s.bad), "C20", "Y states differ: cell, specified, observed; counts", <<d(DY), cur.y, o.y>>)

\* edge-disjoint paths started in this slice
PathEdges(u) == LET p == <<u[3]>> \o u[2] \o <<u[4]>> IN {{p[k], p[k+1]} : k \in 1..(Len(p)-1)}
PhaseOf(u, c) == LET one == {j \in DOMAIN u[5] : \E k \in DOMAIN u[5][j] : c \in OpCells(u[5][j][k])} IN {IF j <= 2 THEN 1 ELSE 2 : j \in one}
\* The pipeline is offered for layouts with one routing lane, on which adjacent crossings form straight chains. On other layouts
\* (jobs marked "corner") clusters that meet around a corner are beyond its contract; what happens in one is not judged.
Corner(s) == "corner" \in DOMAIN s.x
Crossings(s) == UNION {ToSetC(a[2]) \cap ToSetC(b[2]) : <<a, b>> \in {p \in s.used \X s.used : p[1][1] # p[2][1]}}
Near(X, c) == {x \in X : (x[1] = c[1] /\ x[2] \in {c[2] - 1, c[2] + 1}) \/ (x[2] = c[2] /\ x[1] \in {c[1] - 1, c[1] + 1})}
Straight(X, c) == LET n == Near(X, c) IN \A x, y \in n : x = y \/ (x[1] = y[1] /\ x[1] = c[1]) \/ (x[2] = y[2] /\ x[2] = c[2])
RECURSIVE Cluster(_,_)
Cluster(X, K) == LET n == K \cup UNION {Near(X, c) : c \in K} IN IF n = K THEN K ELSE Cluster(X, n)
EdpcOk(s) ==
  LET X == Crossings(s)
      chain(c) == \A x \in Cluster(X, {c}) : Straight(X, x) IN
  /\ \A a, b \in s.used : a[1] # b[1] =>
        /\ Chk(PathEdges(a) \cap PathEdges(b) = {}, "C13", "two CNOT paths of one wave share an edge", <<a[1], b[1]>>)
        /\ \A c \in ToSetC(a[2]) \cap ToSetC(b[2]) :
             Chk(PhaseOf(a, c) \cap PhaseOf(b, c) = {} \/ (Corner(s) /\ ~chain(c)), "C13", "two CNOT paths use their crossing cell in the same phase", <<a[1], b[1], c>>)
  /\ Chk(\A c \in UNION {ToSetC(a[2]) : a \in s.used} : Cardinality({a \in s.used : InSeq(a[2], c)}) <= 2, "C13", "more than two CNOT paths cross in a cell", 0)

RotStyles(s) == TRUE
Invariants(s, o) ==
  /\ Chk(NoDuplicateIds(o.g), "C01", "one patch id on two cells", Ids(o.g))
  /\ Chk(MagicIsPrepared(o), "C06", "available magic states and prepared patches disagree", o.mag)
  /\ Chk(YCount(s.lay, o) \/ s.x.noy, "C20", "number of available Y states wrong", o.y)
  /\ Chk(RegionsOk(o.g), "C04", "merge region not a properly joined path", 0)
  /\ Chk(Edpc(s.cfg) \/ SidesOk(o.g), "C04,C02", "active side of a patch not joined to anything", 0)
  /\ Chk(RotationsOk(o.g), "C07", "rotation region not joined", 0)

\* Waiting: an instruction whose turn had come when the slice began, and which was not applied, is impossible in the finished slice.
Blocked(s, o, i) ==
  LET al == Allowed(s.lay, s.cfg, o, i) IN
  IF i.k = "cnot" /\ Edpc(s.cfg) THEN TRUE
  ELSE al # {"ok"} \/ (i.k = "y" /\ s.unbound) \/ (i.k = "init" /\ i.pn # <<>> /\ i.pn[1] \in s.touched) \/ (i.k = "y" /\ i.near \in s.touched)
\* an edge-disjoint-path CNOT that could still be routed on the finished slice
EdpcBlocked(s, o, i) ==
  LET g == o.g IN
  \/ ~HasId(g, i.c) \/ ~HasId(g, i.t)
  \/ LET cs == CellOf(g, i.c) ct == CellOf(g, i.t)
         open(c) == EdpcOpen(g, c)
         edge(a, b) == open(a) /\ open(b) /\ ~Reserved(g, a, b)
         A == {n \in Nbrs(g, cs) : open(n) /\ Faces(g, cs, n, "Z")} B == {n \in Nbrs(g, ct) : open(n) /\ Faces(g, ct, n, "X")}
     IN IsActive(At(g, cs)) \/ IsActive(At(g, ct)) \/ A = {} \/ B = {} \/ Bfs(g, edge, A, A, B, 1) < 2

\* the number of slices an instruction may spend waiting, -1: unlimited. (The stream pipeline also emits the slice of the last failing attempt.)
Limit(s, j) == IF s.cfg.pipe = "dag" THEN 100 ELSE IF s.prog[j].w < 0 THEN -1 ELSE IF s.cfg.pipe = "stream" THEN s.prog[j].w + 1 ELSE s.prog[j].w
OnSlice(s, o) ==
  LET dims == SameDims(s.st.g, o.g)
      c0 == Chk(dims, "C01,C02,C14", "slice has the wrong dimensions", <<Len(o.g), s.lay.rows, s.lay.cols>>)
      waiting == s.ready \ s.applied
      stream == s.cfg.pipe = "stream"
      lazy == {j \in waiting : IF s.prog[j].k = "cnot" /\ Edpc(s.cfg) THEN ~EdpcBlocked(s, o, s.prog[j]) ELSE ~Blocked(s, o, s.prog[j])}
      \* stream: after the last instruction without continuation, the next one must be impossible now
      nextj == LET r == (1..Len(s.prog)) \ s.applied IN IF r = {} THEN 0 ELSE Min(r)
      tried == stream /\ s.conts = <<>> /\ ~s.fol /\ nextj # 0
      over == {j \in (IF stream THEN (IF tried THEN {nextj} ELSE {}) ELSE waiting) : Limit(s, j) >= 0 /\ s.waits[j] + 1 > Limit(s, j)}
      stuck == {k \in DOMAIN s.conts : s.conts[k].last < s.kz}
      due == IF stream THEN (IF tried THEN {nextj} ELSE {}) ELSE TurnSet(s)
      nxt == IF dims THEN Advance(s.lay, o) ELSE s.st
      s1 == [s EXCEPT !.st = nxt, !.last = o, !.kz = @ + 1, !.nf = IF s.fol THEN @ + 1 ELSE @, !.used = {}, !.fresh = {}, !.touched = {}, !.unbound = FALSE, !.bad = FALSE, !.unk = FALSE, !.fol = FALSE,
                      !.waits = [j \in DOMAIN s.waits |-> IF j \in waiting \/ (tried /\ j = nextj) THEN s.waits[j] + 1 ELSE s.waits[j]],
                      !.pend = [j \in DOMAIN s.pend |-> IF j \in due THEN s.pend[j] + 1 ELSE s.pend[j]],
                      !.cell0 = UNION {IF s.conts[k].k = "self" THEN NewOpCells(s.conts[k].i) ELSE {} : k \in DOMAIN s.conts}]
      checks == /\ c0
                /\ (~dims \/ (/\ CompareSlice([s EXCEPT !.cell0 = s.cell0 \cup UNION {NewOpCells(s.conts[k].i) : k \in {m \in DOMAIN s.conts : s.conts[m].k = "self"}}], o)
                              /\ Invariants(s, o)
                              /\ EdpcOk(s)
                              /\ Chk(lazy = {} \/ s.bad, "C19" \o OfKinds({s.prog[j] : j \in lazy}), "an instruction whose turn had come and which was possible was not applied", IF lazy = {} THEN 0 ELSE s.prog[Min(lazy)])
                              /\ Chk(~tried \/ s.bad \/ nextj \in lazy \/ Blocked(s, o, s.prog[nextj]) \/ s.x.cut, "C19" \o (IF nextj = 0 THEN "" ELSE OfKinds({s.prog[nextj]})), "slice emitted although the next instruction was possible", IF nextj = 0 THEN 0 ELSE s.prog[nextj])
                              /\ Chk(over = {}, "C19", "instruction waits longer than its limit", IF over = {} THEN 0 ELSE s.prog[Min(over)])
                              /\ Chk(stuck = {}, "C03,C19,C07" \o OfKinds({s.prog[s.conts[k].idx] : k \in stuck}), "a started multi-step instruction was not continued in this slice", IF stuck = {} THEN 0 ELSE s.prog[s.conts[Min(stuck)].idx])))
  IN IF checks THEN [s1 EXCEPT !.ready = TurnSet(s1)] ELSE s1

------------------------------------------------------------------------------
(* A probe: one instruction tried on a copy of the last slice. *)
OnProbe(s, e) ==
  LET i == e.i pre == s.last post == StOf(e) al == Allowed(s.lay, s.cfg, pre, i) r == {e.r} \cap al
      tags == KindTags(i)
      ok1 == Chk(r # {}, tags \o (IF i.k = "mpm" \/ (i.k = "op" /\ i.op = "S") \/ i.k \in {"cnot", "bell"} THEN ",C05" ELSE "") \o ",C19", "result of trying the instruction (observed, permitted)", <<i, e.r, al>>)
      okerr == e.r # "err" \/ Chk(post = pre, tags \o ",C19", "an instruction that cannot be applied changed the lattice", i)
      okapp == IF e.r # "ok" \/ ~("ok" \in al) THEN TRUE
               ELSE IF i.k \in {"cnot", "bell"} THEN
                  LET ia == e.ia flat == IF ia.sets = <<>> THEN <<>> ELSE ia.sets[1]
                      run == RunLocal(s.cfg, pre.g, flat, 0)
                      part == run[2] < Len(flat)
                  IN /\ Chk(Len(ia.sets) = 1 /\ flat # <<>>, "C12", "no decomposition", ia)
                     /\ (flat = <<>> \/ (/\ StartLocal([s EXCEPT !.st = pre], 0, ia).ok
                                         /\ (i.k # "bell" \/ Chk(BellEnds(pre.g, ia, flat), "C12", "Bell pair operations do not create the Bell pair between the requested sides", ia))
                                         /\ Chk(post = [pre EXCEPT !.g = run[1]], "C12,C02", "local operations not applied as specified", ia)
                                         /\ Chk(part <=> e.fol # <<>>, "C12,C03", "unfinished operation must be continued, a finished one must not", ia)))
               ELSE LET ch == Infer(s.lay, s.cfg, pre, i, post.g) IN
                    IF ~ch.ok THEN Fail(tags, "effect of the instruction is not visible", i)
                    ELSE IF ~Legal(s.lay, s.cfg, pre, i, ch.v) THEN Fail(tags \o ",C01", "illegal choice", <<i, ch.v>>)
                    ELSE LET isPath == (i.k = "mpm" /\ ~s.cfg.local) \/ (i.k = "op" /\ i.op = "S")
                             opid == IF isPath /\ ch.v # <<>> /\ s.cfg.opids THEN At(post.g, ch.v[1])[8] ELSE -1
                             want == Apply(s.lay, s.cfg, pre, i, ch.v, opid)
                             short == isPath /\ s.cfg.router = "custom" /\ s.cfg.gs = "dij"
                             fok == CASE i.k = "op" /\ i.op = "S" -> Len(e.fol) = 1 /\ e.fol[1].k = "op" /\ e.fol[1].op = "Z" /\ e.fol[1].t = i.t
                                      [] i.k = "rot" -> Len(e.fol) = 1 /\ e.fol[1].k = "busy"
                                      [] OTHER -> e.fol = <<>>
                         IN /\ Chk(post = want, tags, "state after the instruction differs", <<i, {<<c, At(want.g, c), At(post.g, c)>> : c \in {x \in Cells(post.g) : At(want.g, x) # At(post.g, x)}}, want.mag = post.mag, want.y, post.y>>)
                            /\ Chk(~short \/ Len(ch.v) = (IF i.k = "mpm" THEN RouteLen(pre.g, CellOf(pre.g, i.obs[1][1]), i.obs[1][2], CellOf(pre.g, i.obs[2][1]), i.obs[2][2])
                                                          ELSE RouteLen(pre.g, CellOf(pre.g, i.t), "X", CellOf(pre.g, i.t), "Z")), "C05", "region is not a shortest one", <<i, ch.v>>)
                            /\ Chk(fok, tags \o ",C03", "continuation of the instruction", <<i, e.fol>>)
  IN IF ok1 /\ okerr /\ okapp THEN s ELSE s

\* one time step tried on a copy of the last slice
OnTick(s, e) ==
  LET w == Advance(s.lay, s.last) o == StOf(e) D == {c \in Cells(w.g) : At(w.g, c) # At(o.g, c)}
      d == {<<c, At(s.last.g, c), At(w.g, c), At(o.g, c)>> : c \in D}
      D6 == {c \in D : TyOf(At(w.g, c)) \in {TDist, TPrep} \/ TyOf(At(o.g, c)) \in {TDist, TPrep}}
  IN /\ Chk(D = {} /\ w = o, "C02", "time step differs: cell, before, specified, observed", <<d, w.mag, o.mag, w.tm, o.tm, w.y, o.y>>)
     /\ Chk(D6 = {} /\ w.mag = o.mag /\ w.tm = o.tm, "C06", "distillation differs in a time step: cell, before, specified, observed", <<d, w.mag, o.mag, w.tm, o.tm>>)
     /\ Chk(\A c \in D : TyOf(At(w.g, c)) # TQubit /\ TyOf(At(o.g, c)) # TQubit, "C01", "a time step changed a patch: cell, before, specified, observed", d)
     /\ Chk(\A c \in D : AcOf(At(s.last.g, c)) # ARot, "C07", "a time step changed a rotation: cell, before, specified, observed", d)

------------------------------------------------------------------------------
(* The end of a compilation. *)
OnEnd(s, e) ==
  LET n == Len(s.prog) all == s.done = 1..n /\ s.conts = <<>>
      pend == TurnSet(s)
      \* an error is justified by an instruction at its turn that is rejected outright, or that used up its limit and is still impossible
      why == {j \in pend : LET al == Allowed(s.lay, s.cfg, IF s.cfg.pipe = "stream" THEN s.last ELSE s.st, s.prog[j]) IN
                 \/ "exc" \in al \/ "exc" \in Allowed(s.lay, s.cfg, s.st, s.prog[j])
                 \/ (al # {"ok"} /\ Limit(s, j) >= 0 /\ s.pend[j] >= Limit(s, j))}
  IN CASE e.status = "ok" -> /\ Chk(all, "C03", "compilation completed without applying every instruction once", <<n, s.applied, s.done>>)
                             /\ Chk(e.ic \in (IF s.cfg.pipe = "stream" THEN {n} ELSE {n, s.ki}), "C03,C21", "instruction count: reported, in the program, applied", <<e.ic, n, s.ki>>)
                             /\ (e.sc = s.kz \/ CASE s.cfg.pipe # "stream" /\ e.sc = s.kz + 1 -> Fail("C21", "reported slice count is one more than the slices emitted (dag and wave pipelines)", <<e.sc, s.kz>>)
                                                  [] s.cfg.pipe = "stream" /\ e.sc = s.nf + 1 -> Fail("C21", "reported slice count leaves out the slices spent waiting (stream pipeline)", <<e.sc, s.kz>>)
                                                  [] OTHER -> Fail("C21", "slice count: reported, emitted", <<e.sc, s.kz, s.nf>>))
       [] e.status \in {"exc", "graceful"} -> Chk(why # {} \/ s.x.exc \/ s.bad, "C19,C03" \o OfKinds({s.prog[j] : j \in pend} \cup {s.prog[s.conts[k].idx] : k \in DOMAIN s.conts}), "compilation stopped with an error although no instruction is rejected or out of time", <<e.msg, e.out>>)
       [] OTHER -> TRUE

Process(s, e) ==
  CASE e.e = "job" -> EmptyJob(e.job, IF "x" \in DOMAIN e THEN e.x ELSE [noy |-> FALSE, exc |-> FALSE, cut |-> FALSE])
    [] e.e = "begin" -> Begin(e)
    [] e.e = "ins" /\ s.live -> OnIns(s, e.i)
    [] e.e = "slice" /\ s.live -> IF s.cfg.pipe = "op" THEN [s EXCEPT !.last = StOf(e)] ELSE OnSlice(s, StOf(e))
    [] e.e = "probe" /\ s.live -> OnProbe(s, e)
    [] e.e = "tick" /\ s.live -> IF OnTick(s, e) THEN s ELSE s
    [] e.e = "end" /\ s.live -> IF OnEnd(s, e) THEN [s EXCEPT !.live = FALSE] ELSE [s EXCEPT !.live = FALSE]
    [] e.e \in {"dead", "uncaught"} -> IF Fail("C01,C02,C03,C04,C05,C06,C07,C12,C13,C17,C18,C19,C20,C21", "the code under test crashed or hung", e) THEN s ELSE s
    [] e.e = "fail" -> IF Fail("C03,C14,C19", "source or layout rejected", e.msg) THEN s ELSE s
    [] OTHER -> s

Init == l = 1 /\ S = EmptyJob(0, [noy |-> FALSE, exc |-> FALSE, cut |-> FALSE])
Next == l <= Len(Trace) /\ l' = l + 1 /\ S' = Process(S, Trace[l])
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
