------------------------------ MODULE CliTrace ------------------------------
(* Runs of the real slicer program, compared with what CliSpec says its options mean: the library run (or listing) with exactly that
   configuration, recorded from the same code just before, and the places and forms its results are written in.                 *)
EXTENDS CliSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, job, s
vars == <<l, job, s>>
Fail(clause, detail) == PrintT("FAIL|C22|" \o ToString(job) \o "|" \o ToString(l) \o "|" \o clause \o "|" \o ToString(detail))
Judge(c, clause, detail) == IF c THEN TRUE ELSE Fail(clause, detail)
Fresh == [js |-> <<>>, lists |-> <<>>, cur |-> "", end |-> <<>>, lines |-> <<>>, fail |-> FALSE, r |-> ""]
Empty(k) == k.is = "empty"
Brief(o) == [f \in DOMAIN o \ {"src", "rows", "core"} |-> o[f]]
\* nothing that could be taken for a result
NoSlices(k) == k.js = <<>> /\ k.is \notin {"json", "part"}
RefusedOk(e) ==
  /\ Judge(e.exc \/ e.code # 0, "a refused combination of options reports success", <<Brief(e.opt), e.code>>)
  /\ Judge(e.err # "" \/ e.msg # "", "options are refused without a message", Brief(e.opt))
  /\ Judge(NoSlices(e.out) /\ NoSlices(e.file), "slices written although the options are refused", Brief(e.opt))
ListOk(e, m) ==
  IF s.r = "exc" THEN Judge(e.exc, "an error of the input is not reported", <<Brief(e.opt), e.code>>)
  ELSE /\ Judge(~e.exc /\ e.code = 0, "accepted options fail", <<Brief(e.opt), e.code, e.msg, e.err>>)
       /\ Judge(Trim(e.out.lines) = Trim(s.lines), IF m.kind = "list" THEN "printed instructions" ELSE "printed dependency graph", <<Brief(e.opt), "specified", s.lines, "printed", e.out.lines>>)
       /\ Judge(NoSlices(e.out) /\ NoSlices(e.file), "slices written although only a listing is asked for", Brief(e.opt))
Bulk(e, m) == IF m.to = "file" THEN e.file ELSE e.out
RunFails(e, m) ==
  /\ Judge(e.exc \/ e.code # 0, "a failing run reports success", <<Brief(e.opt), s.end>>)
  /\ Judge(e.msg # "" \/ e.err # "", "a failing run gives no message", Brief(e.opt))
  /\ Judge(IsPrefix(Bulk(e, m).js, s.js), "slices of a failing run", Brief(e.opt))
RunOk(e, m) ==
  LET b == Bulk(e, m) t == IF m.to = "file" THEN e.out ELSE [e.out EXCEPT !.js = <<>>]
      n == Len(s.lists)
      \* what follows the lines of the slices: instructions of a slice a graceful end cut off, then the rest
      rest == IF m.what # "lists" THEN <<>> ELSE LET q == SubSeq(b.lines, n + 1, Len(b.lines)) IN
              IF s.cur = "" THEN Trim(q) ELSE IF q = <<>> \/ ~T!HasPrefix(q[1], s.cur) THEN <<"missing: " \o s.cur>> \o q
              ELSE Trim(<<T!After(q[1], Len(s.cur))>> \o Tail(q))
      summary == CASE m.to = "file" \/ m.what = "nothing" -> Trim(e.out.lines)
                   [] m.what = "lists" -> rest
                   [] OTHER -> <<>>
  IN /\ Judge(~e.exc /\ e.code = 0, "accepted options fail", <<Brief(e.opt), e.code, e.msg, e.err>>)
     /\ Judge((s.end.out = "") = (e.said = ""), "the error of a graceful run", <<Brief(e.opt), s.end.out, e.said>>)
     /\ Judge(e.hasfile = e.opt.out, "output file", <<Brief(e.opt), e.hasfile>>)
     /\ CASE m.what = "slices" -> /\ Judge(b.is = "json", "the output is not a JSON list of slices", <<Brief(e.opt), b.is, b.lines>>)
                                  /\ Judge(b.js = s.js, "slices written by the program differ from those of the compilation its options describe",
                                           <<Brief(e.opt), Len(b.js), Len(s.js), IF \E k \in DOMAIN b.js : k \in DOMAIN s.js /\ b.js[k] # s.js[k] THEN LET k == CHOOSE k \in DOMAIN b.js : k \in DOMAIN s.js /\ b.js[k] # s.js[k] IN <<k, b.js[k], s.js[k]>> ELSE <<>>, s.js>>)
          [] m.what = "lists" -> /\ Judge(NoSlices(e.out) /\ NoSlices(e.file), "slices written although instructions are asked for", Brief(e.opt))
                                 /\ Judge(Len(b.lines) >= n /\ SubSeq(b.lines, 1, n) = s.lists, "printed instructions of every slice", <<Brief(e.opt), "specified", s.lists, "printed", b.lines>>)
                                 /\ Judge(m.to = "out" \/ rest = <<>>, "more lines than slices", <<Brief(e.opt), n, b.lines, rest>>)
          [] OTHER -> Judge(NoSlices(e.out) /\ NoSlices(e.file) /\ e.file.lines = <<>>, "slices written although none are asked for", Brief(e.opt))
     /\ (m.what # "slices" \/ m.to = "file" => Judge(SummaryFits(m.summary, summary, s.end.ic, s.end.sc, T!Fields(s.end.ttxt, "\n")), "summary", <<Brief(e.opt), summary, s.end>>))
CliOk(e) ==
  LET m == Meaning(e.opt) IN
  CASE m.kind = "any" -> TRUE
    [] m.kind = "refuse" -> RefusedOk(e)
    [] m.kind # "run" -> ListOk(e, m)
    [] s.fail -> Judge(e.exc \/ e.code # 0 \/ (e.opt.graceful /\ e.said # ""), "an error of the input is not reported", <<Brief(e.opt), e.code>>)
    [] s.end = <<>> -> Fail("no reference run", Brief(e.opt))
    [] s.end.status = "exc" -> RunFails(e, m)
    [] OTHER -> RunOk(e, m)
Step(e) ==
  CASE e.e = "job" -> Fresh
    [] e.e = "ref" -> [s EXCEPT !.lines = e.lines, !.r = e.r]
    [] e.e = "fail" -> [s EXCEPT !.fail = TRUE, !.r = "exc"]
    [] e.e = "ins" -> [s EXCEPT !.cur = @ \o e.i.txt \o ";"]
    [] e.e = "slice" -> [s EXCEPT !.js = Append(@, e.js), !.lists = Append(@, s.cur), !.cur = ""]
    [] e.e = "end" -> [s EXCEPT !.end = e]
    [] OTHER -> s
Check(e) ==
  CASE e.e = "cli" -> CliOk(e)
    [] e.e \in {"dead", "uncaught"} -> Fail("the program crashed or hung", e)
    [] OTHER -> TRUE
Init == l = 1 /\ job = 0 /\ s = Fresh
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ job' = (IF e.e = "job" THEN e.job ELSE job)
           /\ s' = Step(e)
           /\ Check(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
