------------------------------ MODULE VtuTrace ------------------------------
(***************************************************************************)
(* Recorded histories of writer calls, judged by SifVtu.  Several writers  *)
(* may be in use at the same time.                                         *)
(***************************************************************************)
EXTENDS SifVtu, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, ws, bad
vars == <<c, l, ws, bad>>
Case == Trace[c]
Ev == Case.ev[l]
Clause(tag, p, s) == IF p THEN {} ELSE {tag \o ": event " \o ToString(l) \o " (" \o Ev.op \o ") " \o s}

Init == c \in 1..Len(Trace) /\ l = 1 /\ bad = {} /\ ws = [z \in {} |-> 0]

W == ws[Ev.w]
Step == CASE Ev.op = "new" -> Accept(New)
          [] Ev.op = "piece" -> Piece(W, Ev.pts, Ev.con.d, Ev.ends.d, Ev.types.d)
          [] Ev.op = "startp" -> Section(W, "PointData")
          [] Ev.op = "startc" -> Section(W, "CellData")
          [] Ev.op = "add" -> Add(W, Ev.a, Ev.name, Ev.comps)
          [] Ev.op = "addn" -> AddNodes(W, Ev.a, Ev.name, Ev.comps)
          [] Ev.op = "close" -> Close(W)

Call ==
  /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET again == Ev.op = "close" /\ ~W.open     \* closing twice: not specified, but harmless
         r == Step
     IN  /\ ws' = (Ev.w :> r.w) @@ ws
         /\ bad' = bad
              \union Clause("order", again \/ Ev.obs.ok = r.ok,
                            IF r.ok THEN "fails with " \o Ev.obs.err ELSE "must be refused")
              \union Clause("args", Ev.obs.same, "changed its arguments")
              \union (IF Ev.op = "close" THEN {"doc: event " \o ToString(l) \o " " \o x
                                                : x \in DocDiff(r.w.doc, Ev.obs.doc)} ELSE {})

Finish == /\ l = Len(Case.ev) + 1 /\ l' = l + 1
          /\ PrintT(<<"VERDICT", Case.id, IF bad = {} THEN "ok" ELSE "bad">>)
          /\ \A b \in bad : PrintT(<<"CLAUSE", Case.id, b>>)
          /\ UNCHANGED <<c, ws, bad>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
==============================================================================
