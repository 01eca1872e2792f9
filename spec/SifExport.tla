----------------------------- MODULE SifExport ------------------------------
(***************************************************************************)
(* From a dataset to a VTU file: the nodes, elements and results of one    *)
(* selection, given to the writer as they were answered.  What the file    *)
(* must hold follows from the queries (SifStruc) and the writer (SifVtu);  *)
(* that the two belong together is Aligned.                                *)
(*                                                                         *)
(* A piece is [sets, kind, disc, secs: [tag, arrs]], an array              *)
(* [fn, a, name, surf, lo, hi, flat, nodes, tol, comps]: columns lo..hi    *)
(* (of surface surf) of the answer to query fn with arguments a; nodes:    *)
(* given as element node data.                                             *)
(***************************************************************************)
EXTENDS SifStruc
V == INSTANCE SifVtu

Slice(it, x) ==
  LET n == it.s[1]
      width == IF n = 0 THEN 1 ELSE Len(it.d) \div n
      nc == IF Len(it.s) = 3 THEN it.s[3] ELSE width
  IN  [s |-> IF x.flat THEN <<n>> ELSE <<n, x.hi - x.lo + 1>>, t |-> "float64",
       d |-> Flat([i \in 1..n |-> SubSeq(it.d, (i - 1) * width + (x.surf - 1) * nc + x.lo,
                                              (i - 1) * width + (x.surf - 1) * nc + x.hi)])]

Asked(d, x) == StrucAnswer(d, x.fn, x.a)[1]
AddTo(d, w, x) == LET a == Slice(Asked(d, x), x)
                  IN  IF x.nodes THEN V!AddNodes(w, a, x.name, x.comps).w
                      ELSE V!Add(w, a, x.name, x.comps).w
SectionOf(d, w, s) == FoldLeft(LAMBDA u, x : AddTo(d, u, x), V!Section(w, s.tag).w, s.arrs)
Ints(it) == [i \in 1..Len(it.d) |-> I(it.d[i])]
PieceOf(d, w, p) ==
  LET nodes == GetNodes(d, p.a)[1]
      els == GetElements(d, p.a)
      start == V!Piece(w, [s |-> nodes.s, d |-> nodes.d, t |-> "float64"],
                       els[1].d, Ints(els[2]), Ints(els[3])).w
  IN  FoldLeft(LAMBDA u, s : SectionOf(d, u, s), start, p.secs)
Document(d, pieces) == FoldLeft(LAMBDA u, p : PieceOf(d, u, p), V!New, pieces).doc

(***************************************************************************)
(* Where the nodes of an element lie: natural coordinates, in quarters     *)
(* (quadrilaterals, beams: from -4 to 4) or halves of area (triangles).    *)
(* Sesam's order, the order of its results, and VTK's.                     *)
(***************************************************************************)
Corner4 == <<<<-4, -4>>, <<4, -4>>, <<4, 4>>, <<-4, 4>>>>
Mid(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) \div 2]
NatNode == (15 :> <<<<-4>>, <<4>>>>) @@ (23 :> <<<<-4>>, <<0>>, <<4>>>>) @@ (24 :> Corner4)
        @@ (25 :> <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>>)
        @@ (26 :> <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>, <<1, 1, 0>>, <<0, 1, 1>>, <<1, 0, 1>>>>)
        @@ (28 :> [n \in 1..8 |-> <<4 * NdXi[n], 4 * NdEta[n]>>])
NatResult == (15 :> NatNode[15]) @@ (23 :> NatNode[23]) @@ (24 :> NatNode[24]) @@ (25 :> NatNode[25])
          @@ (26 :> NdArea) @@ (28 :> NatNode[28])
VtkCorners == (15 :> 2) @@ (23 :> 2) @@ (24 :> 4) @@ (25 :> 3) @@ (26 :> 3) @@ (28 :> 4)
Perm(m, typ) == IF typ \in DOMAIN m THEN m[typ] ELSE [i \in 1..NNodes[typ] |-> i]
Aligned ==
  \A typ \in DOMAIN V!VtkType :
    LET pts == NatNode[typ]
        cell == [i \in 1..NNodes[typ] |-> pts[Perm(V!VtkNodes, typ)[i]]]
        nc == VtkCorners[typ]
    IN  \* VTK: corners first, then the middle of the edges between them, in turn
        /\ \A i \in (nc + 1)..NNodes[typ] : cell[i] = Mid(cell[i - nc], cell[1 + ((i - nc) % nc)])
        \* results, once arranged, are those of the points
        /\ \A i \in 1..NNodes[typ] : NatResult[typ][Perm(V!VtkResults, typ)[i]] = pts[i]
ASSUME Aligned

(* ---------------------- what was found in the file ---------------------- *)
Kind(t) == IF t \in V!IntNames THEN "int" ELSE "float"
Whole(x) == x.fn \in {"get_nodenumbers", "get_elementnumbers"}
ArrDiff(p, e, o, x) ==
  (IF o.name = e.name /\ o.nc = e.nc /\ o.comps = e.comps /\ Len(o.d) = Len(e.d) THEN {}
   ELSE {p \o " is " \o ToString(<<o.name, o.nc, o.comps, Len(o.d)>>) \o ", must be "
           \o ToString(<<e.name, e.nc, e.comps, Len(e.d)>>)})
  \union (IF Whole(x) = (Kind(o.type) = "int") THEN {} ELSE {p \o " is of type " \o o.type})
  \union (IF Len(o.d) # Len(e.d) THEN {}
          ELSE LET w == {i \in 1..Len(e.d) : ~Near(e.d[i], o.d[i], x.tol)}
               IN  IF w = {} THEN {} ELSE {p \o " value no. " \o ToString(Min(w)) \o " is "
                     \o ToString(o.d[Min(w)]) \o ", must be " \o ToString(e.d[Min(w)])})
SecDiff(p, e, o, s) ==
  IF e.tag # o.tag \/ Len(e.arrs) # Len(o.arrs)
  THEN {p \o " is " \o o.tag \o " with " \o ToString(Len(o.arrs)) \o " arrays"}
  ELSE UNION {ArrDiff(p \o " array " \o ToString(i), e.arrs[i], o.arrs[i], s.arrs[i]) : i \in 1..Len(e.arrs)}
PieceDiff(p, e, o, q) ==
  (IF o.np = e.np /\ o.nc = e.nc THEN {} ELSE {p \o " has " \o ToString(o.np) \o " points, " \o ToString(o.nc) \o " cells"})
  \union (IF Len(o.points) = 1 /\ o.points[1].d = e.points.d /\ o.points[1].nc = 3 THEN {} ELSE {p \o " points differ"})
  \union V!CellDiff(p, "connectivity", e.con, o.cells)
  \union V!CellDiff(p, "offsets", V!Eighths(e.ends), o.cells)
  \union V!CellDiff(p, "types", V!Eighths(e.types), o.cells)
  \union (IF Len(e.secs) # Len(o.secs) THEN {p \o " has " \o ToString(Len(o.secs)) \o " sections"}
          ELSE UNION {SecDiff(p \o " section " \o ToString(i), e.secs[i], o.secs[i], q.secs[i]) : i \in 1..Len(e.secs)})
ExportDiff(d, pieces, o) ==
  LET e == Document(d, pieces)
  IN  IF ~o.ok THEN {"cannot be read: " \o o.why}
      ELSE IF Len(e) # Len(o.pieces) THEN {"has " \o ToString(Len(o.pieces)) \o " pieces"}
      ELSE UNION {PieceDiff("piece " \o ToString(i), e[i], o.pieces[i], pieces[i]) : i \in 1..Len(e)}
==============================================================================
