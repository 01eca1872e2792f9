------------------------------ MODULE SifWaves -------------------------------
(***************************************************************************)
(* Every question that can be asked of a small hydrodynamic dataset: all   *)
(* responses, matrices and system data, for all bodies and pairs of        *)
(* bodies, known and unknown.  The answers of SifHydro are built from the  *)
(* axes; the laws go the other way, from the records: each record of a     *)
(* body is found in the answer at the place of its direction, frequency    *)
(* and item, and there is room for nothing else.  With EDGES the questions *)
(* are written out for the harness to ask the real code.                   *)
(*                                                                         *)
(* World: files, disk, top (key of the file), ds (path), bodies, what      *)
(***************************************************************************)
EXTENDS SifStore, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)
ASSUME TLCSet(7, LET db == Datasets({W.files[k] : k \in ToSet(W.disk)}, W.files[W.top], TRUE, "", {})
                 IN  [c |-> db[W.ds].c, attr |-> db[W.ds].attr, top |-> Emp])
D == TLCGet(7)               \* computed once
C == D.c
Bodies == ToSet(W.bodies)

VARIABLE q       \* <<fn, body, body2, mtyp, what, unit>>
Init == q = <<>>
Ask(fn, b, b2, m, w, u) == q' = <<fn, b, b2, m, w, u>>
PerBody == {"get_motion_raos", "get_excitationforce_raos", "get_sectionforce_raos", "get_meandrift",
            "get_horiz_meandrift", "get_panel_pressures", "get_pressure_panel_ids", "get_bodyproperties"}
Plainly == {"get_angular_freqs", "get_periods", "get_timesteps", "constants", "get_sections", "get_points"}
MatTyp == ("get_bodymass" :> 11) @@ ("get_addedmass" :> 12) @@ ("get_potentialdamping" :> 21)
            @@ ("get_viscousdamping" :> 22) @@ ("get_hydrostatic_restoring" :> 31)
            @@ ("get_mooring_restoring" :> 32)
Next == /\ q = <<>>
        /\ \/ W.what = "system" /\ \E fn \in Plainly : Ask(fn, 1, 1, 11, "", "")
           \/ \E fn \in PerBody, b \in Bodies :
                (fn = "get_bodyproperties") = (W.what = "system") /\ Ask(fn, b, 1, 11, "", "")
           \/ W.what = "responses" /\ \E w \in {"elevation", "pressure", "velocity", "vorticity"} :
                Ask("get_fluidkinematics_raos", 1, 1, 11, w, "")
           \/ \E u \in {"degrees", "radians", "grad"} : Ask("get_directions", 1, 1, 11, "", u)
           \/ W.what = "system" /\ \E b, b2 \in Bodies, m \in {11, 12, 13, 21, 22, 31, 32} :
                Ask("get_matrix", b, b2, m, "", "")
           \/ W.what = "system" /\ \E b, b2 \in Bodies, fn \in DOMAIN MatTyp :
                Ask(fn, b, b2, 11, "", "")
Spec == Init /\ [][Next]_q

(* --------------------------------- laws --------------------------------- *)
A == [body |-> q[2], body2 |-> q[3], mtyp |-> q[4], what |-> q[5], unit |-> q[6]]
R_ == HydroAnswer(D, q[1], A)
Good == q # <<>> /\ R_[1].k \notin {"err", "none"}
Is(fn) == q # <<>> /\ q[1] = fn
ND == Len(Dirs(C))
NF == Len(Freqs(C))
PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
\* the direction and frequency a record refers to
RefRec(r) == LET s == RowsWhere(C, "WDRESREF", LAMBDA w : F(w, "iwres") = F(r, "iwres")) IN s[1]
DirOf(r) == PosOf(Dirs(C), RefRec(r).a["dir"][2])
FreqOf(r) == PosOf(Freqs(C), RefRec(r).a["freq"][2])
\* the value at indices (from one) of an answer, as a tuple of numbers
RECURSIVE Lin_(_, _, _)
Lin_(shape, idx, acc) == IF shape = <<>> THEN acc
                         ELSE Lin_(Tail(shape), Tail(idx), acc * shape[1] + (idx[1] - 1))
Per(x) == Len(x.d) \div ProdSeq(x.s)
Value(x, idx) == LET k == Lin_(x.s, idx, 0) IN SubSeq(x.d, k * Per(x) + 1, (k + 1) * Per(x))
Mine(tab) == RowsWhere(C, tab, LAMBDA r : F(r, "ibcond") = Cond(C, A.body))
Cx(v, b) == <<v[2 * b - 1], v[2 * b]>>

\* responses of a body: every record at its place, and as many places as values
Resps == ("get_motion_raos" :> <<"W1MOTION", "data", 6, TRUE>>)
           @@ ("get_excitationforce_raos" :> <<"W1EXFORC", "data", 6, TRUE>>)
           @@ ("get_meandrift" :> <<"W2MDRIFT", "smfor", 6, FALSE>>)
           @@ ("get_horiz_meandrift" :> <<"W2HDRIFT", "shfor", 3, FALSE>>)
Responses == Good /\ q[1] \in DOMAIN Resps =>
  LET p == Resps[q[1]]  rows == Mine(p[1])  x == R_[1]
  IN  /\ x.s = <<p[3], ND, NF>>
      /\ Len(rows) = ND * NF
      /\ \A i \in 1..Len(rows), b \in 1..p[3] :
           Value(x, <<b, DirOf(rows[i]), FreqOf(rows[i])>>)
             = IF p[4] THEN Cx(rows[i].c[p[2]], b) ELSE <<rows[i].c[p[2]][b]>>
SectionRecords == Good /\ Is("get_sectionforce_raos") =>
  LET rows == Mine("W1SFORCE")  x == R_[1]
      secs == Asc({F(rows[i], "isect") : i \in 1..Len(rows)})
  IN  /\ Len(rows) * 6 = ProdSeq(x.s)
      /\ \A i \in 1..Len(rows), b \in 1..6 :
           Value(x, <<PosOf(secs, F(rows[i], "isect")), b, DirOf(rows[i]), FreqOf(rows[i])>>)
             = Cx(rows[i].c["data"], b)
PanelRecords == Good /\ Is("get_panel_pressures") =>
  LET rows == Mine("W1PANPRE")  x == R_[1]
      ids == HydroAnswer(D, "get_pressure_panel_ids", A)[1].d
  IN  /\ Len(rows) = ProdSeq(x.s)
      /\ \A i \in 1..Len(rows) :
           LET k == CHOOSE j \in 1..(Len(ids) \div 2) :
                      ids[2 * j - 1] = F(rows[i], "ipan") /\ ids[2 * j] = F(rows[i], "isymm1")
           IN  Value(x, <<((k - 1) % x.s[1]) + 1, ((k - 1) \div x.s[1]) + 1, DirOf(rows[i]), FreqOf(rows[i])>>)
                 = rows[i].c["p"]
FluidRecords == Good /\ Is("get_fluidkinematics_raos") =>
  LET rows == C["WFLUIDKN"]  x == R_[1]
      pts == [i \in 1..Len(C["WFKPOINT"]) |-> F(C["WFKPOINT"][i], "ifkpnt")]
      pt(r) == PosOf(pts, F(r, "ifkpnt"))
      gro == (F(C["WGLOBDEF"][1], "g") * F(C["WGLOBDEF"][1], "ro")) \div 64
  IN  /\ Len(rows) * (IF A.what = "velocity" THEN 3 ELSE 1) = ProdSeq(x.s)
      /\ \A i \in 1..Len(rows) :
           CASE A.what = "pressure" -> Value(x, <<pt(rows[i]), DirOf(rows[i]), FreqOf(rows[i])>>) = rows[i].c["p"]
             [] A.what = "velocity" -> \A b \in 1..3 :
                   Value(x, <<pt(rows[i]), b, DirOf(rows[i]), FreqOf(rows[i])>>) = Cx(rows[i].c["v"], b)
             [] OTHER ->              \* pressure is density times gravity times elevation
                   LET e == Value(x, <<pt(rows[i]), DirOf(rows[i]), FreqOf(rows[i])>>)
                   IN  \A k \in 1..2 : LET d == e[k] * gro - 1000 * rows[i].c["p"][k]
                                       IN  d <= 0 /\ d > -gro
\* a matrix is that of the ordered pair; frequency by frequency
Matrices == Good /\ (Is("get_matrix") \/ (q # <<>> /\ q[1] \in DOMAIN MatTyp)) =>
  LET m == IF Is("get_matrix") THEN A.mtyp ELSE MatTyp[q[1]]
      rows == RowsWhere(C, "W1MATRIX", LAMBDA r :
                 /\ FI(r, "imtyp") = m /\ F(r, "ibconi") = Cond(C, A.body)
                 /\ F(r, "ibconj") = Cond(C, A.body2))
      x == R_[1]
  IN  /\ x = HydroAnswer(D, "get_matrix", [A EXCEPT !.mtyp = m])[1]
      /\ m \in {12, 21} => /\ x.s = <<6, 6, NF>>
                           /\ \A i \in 1..Len(rows), k \in 1..36 :
                                x.d[(k - 1) * NF + FreqOf(rows[i])] = rows[i].c["hmat"][k]
      /\ m \notin {12, 21} => x.s = <<6, 6>> /\ x.d = rows[1].c["hmat"]
\* the axes: what is on the file, each once, first come first served
Axes == /\ Cardinality(ToSet(Dirs(C))) = ND /\ Cardinality(ToSet(Freqs(C))) = NF
        /\ ToSet(Dirs(C)) = ToSet(RefVals(C, "dir")) /\ ToSet(Freqs(C)) = ToSet(RefVals(C, "freq"))
        /\ \A i \in 1..(ND - 1) : PosOf(RefVals(C, "dir"), Dirs(C)[i]) < PosOf(RefVals(C, "dir"), Dirs(C)[i + 1])
        /\ \A i \in 1..(NF - 1) : PosOf(RefVals(C, "freq"), Freqs(C)[i]) < PosOf(RefVals(C, "freq"), Freqs(C)[i + 1])
\* frequencies or time steps, never both
Domain_ == /\ Is("get_timesteps") => (R_[1].k = "err") = IsFreq(C)
           /\ Is("get_periods") => (R_[1].k = "err") = ~IsFreq(C)
Unknown == q # <<>> /\ q[1] \in PerBody \union DOMAIN MatTyp /\ ~KnownBody(C, q[2]) => ~Good
Edges == IF "EDGES" \in DOMAIN IOEnv THEN PrintT("@E s @ " \o ToString(q') \o " @ s") ELSE TRUE
==============================================================================
