------------------------------ MODULE Routing -------------------------------
(* Existence and length of merge regions. A region joining side `op1` of patch cell s to side `op2` of patch cell t is a
   path of free cells n1..nk (n1 next to t, nk next to s) or, for s # t, the empty path when the two cells touch on such
   sides. For s = t the loop needs at least one free cell.                                                            *)
EXTENDS Grid

\* Free-cell breadth-first distance from the set `from` (all free) inside `free`; the result is the number of cells of the
\* shortest path ending in `to`, or 0 if there is none.
RECURSIVE Bfs(_, _, _, _, _, _)
Bfs(g, edge(_, _), frontier, seen, to, d) ==
   IF frontier \cap to # {} THEN d
   ELSE LET nxt == {n \in (UNION {Nbrs(g, c) : c \in frontier}) \ seen : \E c \in frontier : Adjacent(c, n) /\ edge(c, n)}
        IN IF nxt = {} THEN 0 ELSE Bfs(g, edge, nxt, seen \cup nxt, to, d + 1)

FreeEdge(g, a, b) == At(g, a) = NoPatch /\ At(g, b) = NoPatch
Starts(g, c, op) == {n \in Nbrs(g, c) : At(g, n) = NoPatch /\ Faces(g, c, n, op)}
TouchOk(g, s, sop, t, top) == s # t /\ Adjacent(s, t) /\ Faces(g, s, t, sop) /\ Faces(g, t, s, top)

\* number of cells of a shortest region, -1 if there is none
RouteLen(g, s, sop, t, top) ==
   IF TouchOk(g, s, sop, t, top) THEN 0
   ELSE LET a == Starts(g, s, sop) b == Starts(g, t, top)
        IN IF a = {} \/ b = {} THEN -1
           ELSE LET d == Bfs(g, LAMBDA x, y : At(g, y) = NoPatch, a, a, b, 1) IN IF d = 0 THEN -1 ELSE d
Routable(g, s, sop, t, top) == RouteLen(g, s, sop, t, top) >= 0

\* The same for edge-disjoint routing: cells reserved in this step may be shared, reserved edges may not.
EdpcOpen(g, c) == At(g, c) = NoPatch \/ At(g, c)[2] = AEdpc
Reserved(g, a, b) == At(g, a) # NoPatch /\ Style(Side(At(g, a), DirTo(a, b))) \in {BLab1, BLab2}

\* A region, as an ordered list of cells from the target to the source end, is legal in g.
LegalPath(g, path, s, sop, t, top) ==
   IF path = <<>> THEN TouchOk(g, s, sop, t, top)
   ELSE /\ \A i \in 1..Len(path) : In(g, path[i]) /\ At(g, path[i]) = NoPatch
        /\ \A i, j \in 1..Len(path) : i # j => path[i] # path[j]
        /\ \A i \in 1..(Len(path)-1) : Adjacent(path[i], path[i+1])
        /\ Adjacent(t, path[1]) /\ Faces(g, t, path[1], top)
        /\ Adjacent(s, path[Len(path)]) /\ Faces(g, s, path[Len(path)], sop)

\* The routing patch drawn on cell path[i]: joined towards its two neighbours on the way, nothing elsewhere.
RegionPatch(path, i, s, t, op) ==
   LET c == path[i]
       a == IF i = 1 THEN t ELSE path[i-1]
       b == IF i = Len(path) THEN s ELSE path[i+1]
   IN [k \in 1..8 |-> IF k = 1 THEN TRoute ELSE IF k = 2 THEN AMpm ELSE IF k = 3 THEN -1 ELSE IF k = 8 THEN op
                      ELSE IF Step(c, k-3) = a \/ Step(c, k-3) = b THEN Joined ELSE 0]
=============================================================================
