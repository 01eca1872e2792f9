----------------------------- MODULE CalcTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the calculation functions, judged by SifCalc.         *)
(***************************************************************************)
EXTENDS SifCalc, Json, IOUtils

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, bad
vars == <<c, l, bad>>
Case == Trace[c]
Ev == Case.ev[l]
Clause(tag, p, s) == IF p THEN {} ELSE {tag \o ": event " \o ToString(l) \o " (" \o Ev.fn \o ") " \o s}

Init == c \in 1..Len(Trace) /\ l = 1 /\ bad = {}

Shape == CASE Ev.fn \in {"principal2d", "principal_thickshell"} -> PairShape(Ev.s)
           [] Ev.fn = "vonmises2d" -> Lead(Ev.s)
           [] Ev.fn = "absmax" -> AxisShape(Ev.s, Ev.axis)
           [] Ev.fn = "find_elemres_indices" -> <<Len(Ev.pairs)>>

Right(out) ==
  CASE Ev.fn = "principal2d" -> RowsOk(Principal2d, Ev.s, Ev.d, out)
    [] Ev.fn = "principal_thickshell" -> RowsOk(PrincipalThick, Ev.s, Ev.d, out)
    [] Ev.fn = "vonmises2d" -> ScalarsOk(VonMises2d, Ev.s, Ev.d, out)
    [] Ev.fn = "absmax" -> AbsMaxOk(Ev.s, Ev.d, Ev.axis, out)
    [] Ev.fn = "find_elemres_indices" ->
         \A k \in 1..Len(Ev.pairs) :
            Position(Ev.pairs[k][1], Ev.pairs[k][2], Ev.elems, Ev.ends, Ev.rows, out[k] \div 100)

\* pairs that there are not are refused
Asked == Ev.fn # "find_elemres_indices"
         \/ \A k \in 1..Len(Ev.pairs) : Belongs(Ev.pairs[k][1], Ev.pairs[k][2], Ev.elems, Ev.ends, Ev.rows)

Call ==
  /\ l <= Len(Case.ev) /\ l' = l + 1 /\ UNCHANGED c
  /\ LET o == Ev.obs
     IN  bad' = bad
           \union (IF ~Asked THEN Clause("calc", ~o.ok, "must be refused for pairs " \o ToString(Ev.pairs))
                   ELSE IF o.ok
                   THEN (IF o.s = Shape /\ Len(o.d) = Prod(Shape)
                         THEN Clause("calc", Right(o.d), "of shape " \o ToString(Ev.s) \o " data "
                                     \o ToString(Ev.d) \o " gives " \o ToString(o.d))
                         ELSE Clause("calc", FALSE, "shape " \o ToString(o.s) \o ", must be " \o ToString(Shape)))
                        \union Clause("single", Len(o.one) = Len(o.d) /\ \A i \in 1..Len(o.d) : Within(o.one[i], o.d[i], 1),
                                      "items alone give " \o ToString(o.one) \o ", together " \o ToString(o.d))
                   ELSE Clause("calc", FALSE, "fails with " \o o.err))
           \union Clause("args", o.same, "changed its input")

Finish == /\ l = Len(Case.ev) + 1 /\ l' = l + 1
          /\ PrintT(<<"VERDICT", Case.id, IF bad = {} THEN "ok" ELSE "bad">>)
          /\ \A b \in bad : PrintT(<<"CLAUSE", Case.id, b>>)
          /\ UNCHANGED <<c, bad>>
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars
==============================================================================
