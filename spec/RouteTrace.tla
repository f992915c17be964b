----------------------------- MODULE RouteTrace -----------------------------
(* Single routing queries answered by the real routers, on given lattices. A query may be repeated on one router object
   (the cached router remembers), and the lattice may change between queries.                                        *)
EXTENDS Routing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job, g, cfg
vars == <<l, job, g, cfg>>
Fail(tags, clause, detail) == PrintT("FAIL|" \o tags \o "|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Chk(c, tags, clause, detail) == IF c THEN TRUE ELSE Fail(tags, clause, detail)

Cell2(q) == <<q[1], q[2]>>
PathOfRegion(reg) == [i \in 1..Len(reg) |-> Cell2(reg[i])]
\* drawn sides: joined towards the two neighbours along the way, nothing elsewhere
Drawn(path, i, s, t) == LET p == RegionPatch(path, i, s, t, -1) IN <<p[4], p[5], p[6], p[7]>>
RouteOk(e) ==
  LET s == CellOf(g, e.s) t == CellOf(g, e.t)
      path == PathOfRegion(e.reg)
      n == RouteLen(g, s, e.so, t, e.to)
      q == <<e.s, e.so, e.t, e.to, cfg.router, cfg.gs>>
      legal == LegalPath(g, path, s, e.so, t, e.to)
  IN IF e.r # "ret" THEN Fail("C05", "the search raised an error", <<q, g>>)
     ELSE /\ Chk(e.ok <=> n >= 0, "C05", "the search and the existence of a path disagree: query, found, shortest length", <<q, e.ok, n, g>>)
          /\ Chk(~e.ok \/ legal, "C04", "the region found does not join the requested sides through free cells", <<q, path, g>>)
          /\ Chk(~e.ok \/ ~legal \/ \A i \in DOMAIN path : SubSeq(e.reg[i], 3, 6) = Drawn(path, i, s, t), "C04", "sides of the region drawn wrongly", <<q, e.reg, g>>)
          /\ Chk(~e.ok \/ n < 0 \/ cfg.gs = "astar" \/ cfg.gs = "boost" \/ cfg.moved \/ Len(path) = n, "C05", "the region found is not a shortest one: query, found, shortest length", <<q, path, n, g>>)

Check(e) == CASE e.e = "route" -> RouteOk(e)
              [] e.e \in {"dead", "uncaught"} -> Fail("C04,C05", "the code under test crashed or hung", e)
              [] OTHER -> TRUE
Init == l = 1 /\ job = 0 /\ g = <<>> /\ cfg = <<>>
Next == LET e == Trace[l] IN
        /\ l <= Len(Trace) /\ l' = l + 1
        /\ job' = (IF e.e = "job" THEN e.job ELSE job)
        /\ g' = (IF e.e = "grid" THEN e.g ELSE g)
        /\ cfg' = (IF e.e = "grid" THEN [router |-> e.router, gs |-> e.gs, moved |-> e.moved] ELSE cfg)
        /\ Check(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
