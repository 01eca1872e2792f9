------------------------------- MODULE SifVtu -------------------------------
(***************************************************************************)
(* The VTU writer: what may be called when, and what the file then holds.  *)
(*                                                                         *)
(* A writer is [open, piece, sec, doc]:                                    *)
(*   open   not closed yet                                                 *)
(*   piece  a piece is open                                                *)
(*   sec    the data section data is added to ("" : none)                  *)
(*   doc    the pieces, each [points, cells, secs] with                    *)
(*          secs: sections [tag, arrs] in the order they were started.     *)
(* An array is [name, type, nc, comps, d]; d counts eighths.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

New == [open |-> TRUE, piece |-> FALSE, sec |-> "", doc |-> <<>>]

\* number of VTK's cell type for a Sesam element type
VtkType == (15 :> 3) @@ (23 :> 21) @@ (24 :> 9) @@ (25 :> 5) @@ (26 :> 22) @@ (28 :> 23)
\* VTK lists corner nodes first, then the nodes in the middle of edges;
\* Sesam runs around the periphery (23, 28)
VtkNodes == (23 :> <<1, 3, 2>>) @@ (28 :> <<1, 3, 5, 7, 2, 4, 6, 8>>)
\* results of six node triangles run around the periphery, its nodes do not
VtkResults == (26 :> <<1, 3, 5, 2, 4, 6>>)

TypeName == ("int8" :> "Int8") @@ ("uint8" :> "UInt8") @@ ("int16" :> "Int16")
         @@ ("uint16" :> "UInt16") @@ ("int32" :> "Int32") @@ ("uint32" :> "UInt32")
         @@ ("int64" :> "Int64") @@ ("uint64" :> "UInt64")
         @@ ("float32" :> "Float32") @@ ("float64" :> "Float64")
IntNames == {"Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64"}

\* an array given by the caller is [s shape, d values, t type]
Writable(a) == Len(a.s) \in {1, 2} /\ a.t \in DOMAIN TypeName
Comps(a) == IF Len(a.s) = 2 THEN a.s[2] ELSE 1
Arr(a, name, comps) == [name |-> name, type |-> TypeName[a.t], nc |-> Comps(a), comps |-> comps, d |-> a.d]

\* rows of an array, permuted within every element
Permuted(d, nc, ends, types, perm) ==
  LET start(e) == IF e = 1 THEN 0 ELSE ends[e - 1]
      row(e, j) == start(e) + (IF types[e] \in DOMAIN perm THEN perm[types[e]][j] ELSE j)
      rows == FlattenSeq([e \in 1..Len(ends) |-> [j \in 1..(ends[e] - start(e)) |-> row(e, j)]])
  IN  FlattenSeq([i \in 1..Len(rows) |-> SubSeq(d, (rows[i] - 1) * nc + 1, rows[i] * nc)])

(* ------------------------------- actions -------------------------------- *)
\* each gives [ok, w]: is the call accepted, and the writer afterwards
Refuse(w) == [ok |-> FALSE, w |-> w]
Accept(w) == [ok |-> TRUE, w |-> w]

PieceOk(w, pts, con, ends, types) ==
  w.open /\ Writable(pts) /\ \A i \in 1..Len(types) : types[i] \in DOMAIN VtkType
Piece(w, pts, con, ends, types) ==
  IF ~PieceOk(w, pts, con, ends, types) THEN Refuse(w)
  ELSE Accept([w EXCEPT !.piece = TRUE, !.sec = "",
         !.doc = Append(w.doc,
           [np |-> pts.s[1], nc |-> Len(types),
            points |-> Arr(pts, "points", <<>>),
            con |-> Permuted(con, 1, ends, types, VtkNodes),
            ends |-> ends, types |-> [i \in 1..Len(types) |-> VtkType[types[i]]],
            raw |-> types, secs |-> <<>>])])

Section(w, tag) ==
  IF ~w.piece THEN Refuse(w)
  ELSE Accept([w EXCEPT !.sec = tag,
         !.doc[Len(w.doc)].secs = Append(w.doc[Len(w.doc)].secs, [tag |-> tag, arrs |-> <<>>])])

AddArr(w, x) == LET p == Len(w.doc)
                    n == Len(w.doc[p].secs)
                IN  [w EXCEPT !.doc[p].secs[n].arrs = Append(w.doc[p].secs[n].arrs, x)]
Add(w, a, name, comps) ==
  IF w.sec = "" \/ ~Writable(a) THEN Refuse(w) ELSE Accept(AddArr(w, Arr(a, name, comps)))

\* element node data, arranged like the nodes of disconnected elements
AddNodes(w, a, name, comps) ==
  IF w.sec = "" \/ ~Writable(a) THEN Refuse(w)
  ELSE LET p == w.doc[Len(w.doc)]
           b == [a EXCEPT !.d = Permuted(a.d, Comps(a), p.ends, p.raw, VtkResults)]
       IN  Accept(AddArr(w, Arr(b, name, comps)))

Close(w) == Accept([w EXCEPT !.open = FALSE, !.piece = FALSE, !.sec = ""])

(* ---------------------- what was found in the file ---------------------- *)
ArrOk(e, o) == e.name = o.name /\ e.type = o.type /\ e.nc = o.nc /\ e.comps = o.comps /\ e.d = o.d
ArrDiff(p, e, o) ==
  {p \o " " \o k \o " is " \o ToString(o[k]) \o ", must be " \o ToString(e[k])
     : k \in {q \in {"name", "type", "nc", "comps", "d"} : e[q] # o[q]}}
\* connectivity, offsets, types: integers of any type, found by name
CellDiff(p, name, d, o) ==
  LET i == {k \in 1..Len(o) : o[k].name = name}
  IN  IF Cardinality(i) # 1 THEN {p \o " has no " \o name}
      ELSE LET a == o[CHOOSE k \in i : TRUE]
           IN  (IF a.d = d /\ a.nc = 1 /\ a.type \in IntNames THEN {}
                ELSE {p \o " " \o name \o " is " \o ToString(a.d) \o ", must be " \o ToString(d)})
SecDiff(p, e, o) ==
  IF e.tag # o.tag \/ Len(e.arrs) # Len(o.arrs)
  THEN {p \o " is " \o o.tag \o " with " \o ToString(Len(o.arrs)) \o " arrays, must be " \o e.tag
          \o " with " \o ToString(Len(e.arrs))}
  ELSE UNION {ArrDiff(p \o " array " \o ToString(i), e.arrs[i], o.arrs[i]) : i \in 1..Len(e.arrs)}
Eighths(q) == [i \in 1..Len(q) |-> 8 * q[i]]
PieceDiff(p, e, o) ==
  (IF o.np = e.np /\ o.nc = e.nc THEN {} ELSE {p \o " has " \o ToString(o.np) \o " points, " \o ToString(o.nc) \o " cells"})
  \union (IF Len(o.points) # 1 THEN {p \o " has not one array of points"}
          ELSE ArrDiff(p \o " points", e.points, [o.points[1] EXCEPT !.name = "points"]))
  \union CellDiff(p, "connectivity", e.con, o.cells)
  \union CellDiff(p, "offsets", Eighths(e.ends), o.cells)
  \union CellDiff(p, "types", Eighths(e.types), o.cells)
  \union (IF Len(e.secs) # Len(o.secs)
          THEN {p \o " has " \o ToString(Len(o.secs)) \o " sections, must be " \o ToString(Len(e.secs))}
          ELSE UNION {SecDiff(p \o " section " \o ToString(i), e.secs[i], o.secs[i]) : i \in 1..Len(e.secs)})
DocDiff(e, o) ==
  IF ~o.ok THEN {"cannot be read: " \o o.why}
  ELSE IF Len(e) # Len(o.pieces) THEN {"has " \o ToString(Len(o.pieces)) \o " pieces, must be " \o ToString(Len(e))}
  ELSE UNION {PieceDiff("piece " \o ToString(i), e[i], o.pieces[i]) : i \in 1..Len(e)}
==============================================================================
