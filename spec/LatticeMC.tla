----------------------------- MODULE LatticeMC ------------------------------
(* Model checking of the lattice machine on small layouts: every interleaving of instructions and time steps, every legal
   choice. The reachable states and the instructions to try in each are printed, and replayed into the real code.       *)
EXTENDS Lattice, LayoutSpec, Json, IOUtils

\* name |-> <<rows, number of declared qubits, ids, configuration>>
Conf == IOEnv.MCCONF
Text == CASE Conf = "merge"  -> << <<"Q","r","r">>, <<"r","A","r">>, <<"r","r","Q">> >>
          [] Conf = "tight"  -> << <<"Q","A","Q">>, <<"r","r","X">> >>
          [] Conf = "magic"  -> << <<"Q","r","0">>, <<"r","r","r">> >>
          [] Conf = "resv"   -> << <<"M","r","M">>, <<"r","Q","r">> >>
          [] Conf = "ys"     -> << <<"Y","r","Y">>, <<"r","Q","r">> >>
          [] Conf = "local"  -> << <<"Q","r","Q">>, <<"r","A","r">> >>
          [] Conf = "twist"  -> << <<"Q","r","r">>, <<"r","r","Q">> >>
          [] OTHER -> << <<"Q", "r">> >>
MaxId == IF IOEnv.MCSIZE = "full" THEN 2 ELSE 1            \* fresh ids up to this one
Cfg == [pipe |-> "op", local |-> Conf \in {"local", "twist"}, twists |-> Conf \in {"twist", "tight", "magic"}, opids |-> FALSE, router |-> "custom", gs |-> "dij"]
Lay == Parse(Text, 2, TRUE)
Core == [i \in 1..Min({Len(Lay.core), 2}) |-> i - 1]

VARIABLES st, nid, rots, live, last
vars == <<st, nid, rots, live, last>>

Ops == {"X", "Z"}
Live == Ids(st.g)
Near(t, cl) == [t |-> t, cl |-> cl, w |-> -1]
B(k) == [k |-> k, cl |-> <<>>, w |-> -1]
Instrs(ids, new) ==
  {B("meas") @@ [t |-> t, p |-> p, neg |-> FALSE] : t \in ids, p \in {"X"}}
  \cup {B("op") @@ [t |-> t, op |-> o, dag |-> FALSE] : t \in ids, o \in {"H", "S", "X"}}
  \cup {B("rot") @@ [t |-> t] : t \in ids}
  \cup {B("mpm") @@ [obs |-> <<<<a, o>>, <<b, p>>>>, neg |-> FALSE] : a \in ids, b \in ids, o \in Ops, p \in Ops}
  \cup {B("init") @@ [t |-> new, st |-> "0", pn |-> pn] : pn \in {<<>>} \cup {<<t, o>> : t \in ids, o \in Ops}}
  \cup {B("magic") @@ [t |-> new, near |-> t] : t \in ids}
  \cup {B("y") @@ [t |-> new, near |-> t] : t \in ids}
  \cup {B("y") @@ [t |-> t, near |-> u] : t \in ids, u \in ids}
  \cup {B("reset") @@ [t |-> t] : t \in ids}
\* a Y state is handed back only by a holder that has not just measured it out
OnY(i) == i.k # "y" \/ ~HasId(st.g, i.t) \/ (InSeq(Lay.ys, CellOf(st.g, i.t)) /\ At(st.g, CellOf(st.g, i.t))[2] # AMeas)
Usable == {i \in Instrs(Live, nid) : (i.k # "mpm" \/ i.obs[1][1] # i.obs[2][1]) /\ OnY(i) /\ (i.k = "y" => i.near # i.t) /\ (nid <= MaxId \/ ~(i.k \in {"init", "magic", "y"} /\ i.t = nid))}

\* every legal choice
FreeSet(g) == FreeCells(g)
RECURSIVE PathsFrom(_, _, _)
PathsFrom(g, p, k) == IF k = 0 THEN {p} ELSE {p} \cup UNION {PathsFrom(g, Append(p, n), k - 1) : n \in {m \in Nbrs(g, p[Len(p)]) : At(g, m) = NoPatch /\ ~InSeq(p, m)}}
Paths(g) == {<<>>} \cup UNION {PathsFrom(g, <<c>>, 4) : c \in FreeCells(g)}
LegalChoices(i) ==
  LET g == st.g
      ent == (i.k = "mpm" /\ ~Cfg.local) \/ (i.k = "op" /\ i.op = "S")
  IN IF ent THEN {p \in Paths(g) : Legal(Lay, Cfg, st, i, p)}
     ELSE IF i.k \in {"init", "rot", "magic"} \/ (i.k = "y" /\ ~HasId(g, i.t)) THEN {c \in Cells(g) : Legal(Lay, Cfg, st, i, c)} ELSE {<<>>}

Init == st = InitLattice(Lay, Core) /\ nid = Len(Core) /\ rots = {} /\ live = {Core[i] : i \in DOMAIN Core} /\ last = "init"
Do(i) ==
  /\ Allowed(Lay, Cfg, st, i) = {"ok"}
  /\ \E ch \in LegalChoices(i) :
       /\ st' = Apply(Lay, Cfg, st, i, ch, -1)
       /\ nid' = IF i.k \in {"init", "magic", "y"} /\ i.t = nid THEN nid + 1 ELSE nid
       /\ rots' = IF i.k = "rot" THEN rots \cup {<<CellOf(st.g, i.t), ch, Turned(At(st.g, CellOf(st.g, i.t))), 0>>} ELSE rots
       /\ live' = (IF i.k \in {"init", "magic"} \/ (i.k = "y" /\ ~HasId(st.g, i.t)) THEN live \cup {i.t} ELSE IF i.k = "y" THEN live \ {i.t} ELSE live)
       /\ last' = i.k
Tick ==
  LET a == Advance(Lay, st)
      over == {r \in rots : r[4] = 2}
      meas == {At(st.g, c)[3] : c \in {x \in Cells(st.g) : At(st.g, x) # NoPatch /\ At(st.g, x)[2] = AMeas}}
  IN /\ st' = FoldSet(LAMBDA r, s : [s EXCEPT !.g = Put(Put(@, r[2], NoPatch), r[1], r[3])], a, over)
     /\ rots' = {<<r[1], r[2], r[3], r[4] + 1>> : r \in rots \ over}
     /\ live' = live \ meas /\ last' = "tick"
     /\ UNCHANGED nid
Next == Tick \/ \E i \in Usable : i.k # "bell" /\ i.k # "cnot" /\ Do(i)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Rotating == {r[3][3] : r \in rots}
C01_Alive == /\ live = Ids(st.g) \cup Rotating /\ Ids(st.g) \cap Rotating = {} /\ NoDuplicateIds(st.g)
             /\ \A r \in rots : At(st.g, r[1])[2] = ARot /\ At(st.g, r[2])[2] = ARot /\ Adjacent(r[1], r[2])
             /\ \A q, r \in rots : q # r => {q[1], q[2]} \cap {r[1], r[2]} = {}
C04_Regions == RegionsOk(st.g) /\ SidesOk(st.g)
C06_Magic == MagicIsPrepared(st) /\ \A i \in DOMAIN st.tm : st.tm[i] <= Lay.times[i]
C07_Rotations == RotationsOk(st.g)
C20_Y == YCount(Lay, st)
\* what a patch may do in one step: stay where it is, or change identity through a request
C01_Stay == [][\A id \in Ids(st.g) \cap Ids(st'.g) : CellOf(st.g, id) = CellOf(st'.g, id)]_vars
\* only free cells are built on
C01_Free == [][last' # "tick" => \A c \in Cells(st.g) : At(st.g, c) # NoPatch /\ At(st'.g, c) # NoPatch =>
                 (At(st'.g, c)[1] = At(st.g, c)[1] \/ (last' = "rot" /\ At(st'.g, c)[2] = ARot /\ At(st.g, c)[1] = TQubit) \/ (last' = "magic" /\ At(st.g, c)[1] = TPrep))]_vars
\* C06: magic states appear only when a countdown ends
C06_Made == [][last' # "tick" => st'.mag \subseteq st.mag]_vars

View == <<st, nid, rots>>
\* printed once per distinct state
ProbeSet == {i \in Instrs(0..MaxId, MaxId + 1) : OnY(i) /\ (i.k # "y" \/ i.near # i.t) /\ (i.k # "mpm" \/ i.obs[1][1] # i.obs[2][1])}
  \cup (IF Cfg.local THEN {B("cnot") @@ [c |-> a, t |-> b, s1 |-> 20, s2 |-> 21, sets |-> <<>>] : a \in 0..1, b \in 0..1}
                      \cup {B("bell") @@ [s1 |-> 20, s2 |-> 21, l1 |-> <<a, o>>, l2 |-> <<b, p>>, sets |-> <<>>] : a \in {0}, b \in {1}, o \in Ops, p \in Ops} ELSE {})
Every == CHOOSE k \in 1..100000 : ToString(k) = IOEnv.MCEVERY
Emit == IOEnv.MCEMIT # "1" \/ (TLCGet("distinct") % Every # 0 /\ last # "init")
        \/ PrintT("STATE|" \o ToJson([g |-> st.g, mag |-> st.mag, tm |-> st.tm, y |-> st.y, ops |-> {i \in ProbeSet : i.k # "cnot" \/ i.c # i.t}]))
=============================================================================
