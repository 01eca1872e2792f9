--------------------------- MODULE SifExportModel ---------------------------
(***************************************************************************)
(* Every piece that can be exported of a small structural dataset: all     *)
(* lists of set names up to a length, all kinds of elements, shared and    *)
(* disconnected nodes, and all sections of one or two of the world's       *)
(* arrays.  TLC checks on every one of them that the document is one a     *)
(* reader of VTU files can use, and that the values stand where they       *)
(* belong; with EDGES the pieces are written out and the harness exports   *)
(* them with the real code.                                                *)
(*                                                                         *)
(* World: files, disk, top, ds, sets, nsets as in SifQuery; arrs: arrays   *)
(*        as in SifExport, with tag, kinds (of the selection), disc        *)
(*        ("any", "yes") and thin (TRUE: not for thick and thin at once)   *)
(***************************************************************************)
EXTENDS SifStore, Json, IOUtils
X == INSTANCE SifExport
V == INSTANCE SifVtu

W == JsonDeserialize(IOEnv.WORLD)
ASSUME TLCSet(7, LET db == Datasets({W.files[k] : k \in ToSet(W.disk)}, W.files[W.top], TRUE, "", {})
                 IN  [c |-> db[W.ds].c, attr |-> db[W.ds].attr, top |-> Emp])
D == TLCGet(7)
C == D.c

VARIABLES pre, q
vars == <<pre, q>>
SetArgs == UNION {[1..n -> ToSet(W.sets)] : n \in 0..W.nsets}
Arrs == 1..Len(W.arrs)
Init == /\ pre \in [s : SetArgs, k : {"", "beam", "shell"}, disc : BOOLEAN]
        /\ q = <<>>
Els(s, k) == ToSet(Selected(C, s, k))
Types(s, k) == {ElTyp(C, e) : e \in Els(s, k)}
\* something is selected, and VTK has cells for it
Drawable == Selectable(C, pre.s, pre.k) /\ Els(pre.s, pre.k) # {} /\ Types(pre.s, pre.k) \subseteq DOMAIN V!VtkType
\* an array of this piece
Fits(i) == LET x == W.arrs[i]
           IN  /\ pre.k \in ToSet(x.kinds)
               /\ x.disc = "yes" => pre.disc
               /\ x.theory = "any" \/ Types(pre.s, pre.k) \subseteq (IF x.theory = "thick" THEN {26, 28} ELSE {24, 25})
Tag(i) == W.arrs[i].tag
Choose(secs) == q' = <<pre.s, pre.k, pre.disc, secs>>
Next == /\ q = <<>> /\ UNCHANGED pre
        /\ Drawable
        /\ \/ Choose(<<>>)
           \/ \E i \in Arrs : Fits(i) /\ Choose(<<<<i>>>>)
           \/ \E i, j \in Arrs : /\ Fits(i) /\ Fits(j) /\ (W.arrs[i].nodes \/ W.arrs[j].nodes => 1 \in {i, j})
                                 /\ Choose(IF Tag(i) = Tag(j) THEN <<<<i, j>>>> ELSE <<<<i>>, <<j>>>>)
Spec == Init /\ [][Next]_vars

(* -------------------------------- the laws ------------------------------ *)
A0(s, k, disc) == [sets |-> s, kind |-> k, disc |-> disc, ntype |-> "external", restype |-> "", run |-> 0,
                   rc |-> [m |-> "none", v |-> <<>>], pos |-> "nodes", trans |-> [m |-> "none", v |-> <<>>],
                   index |-> 1]
Given(i, disc) == LET x == W.arrs[i]
                  IN  [x EXCEPT !.a = [x.a EXCEPT !.sets = q[1], !.kind = q[2], !.disc = disc]]
PieceAs(disc) == [a |-> A0(q[1], q[2], disc),
                  secs |-> [n \in 1..Len(q[4]) |-> [tag |-> Tag(q[4][n][1]),
                                                    arrs |-> [m \in 1..Len(q[4][n]) |-> Given(q[4][n][m], disc)]]]]
Doc(disc) == X!Document(D, <<PieceAs(disc)>>)[1]
RowAt(d, nc, row) == SubSeq(d, row * nc + 1, (row + 1) * nc)      \* rows from 0
Asked == q # <<>>
Flat2(secs) == FlattenSeq([n \in 1..Len(secs) |-> [m \in 1..Len(secs[n].arrs) |-> <<secs[n].tag, secs[n].arrs[m]>>]])

\* results of an element stay with the element
Own(e) ==
    LET arrs == Flat2(e.secs)
        given == Flat2(PieceAs(TRUE).secs)
        start(c) == IF c = 1 THEN 0 ELSE e.ends[c - 1]
        Rows(d, nc, c) == [r \in 1..(e.ends[c] - start(c)) |-> RowAt(d, nc, start(c) + r - 1)]
        Count(s, v) == Cardinality({r \in 1..Len(s) : s[r] = v})
    IN  \A n \in 1..Len(arrs) : given[n][2].nodes =>
          LET raw == X!Slice(X!Asked(D, given[n][2]), given[n][2]).d
              nc == arrs[n][2].nc
          IN  \A c \in 1..e.nc : LET u == Rows(raw, nc, c)
                                     v == Rows(arrs[n][2].d, nc, c)
                                 IN  \A r \in 1..Len(u) : Count(u, u[r]) = Count(v, u[r])

\* what the file says of its own size is true, and cells point at points
Laws ==
  Asked =>
    LET e == Doc(q[3])
        arrs == Flat2(e.secs)
        con == e.con
    IN  /\ e.nc = Cardinality(Els(q[1], q[2])) /\ Len(e.ends) = e.nc /\ Len(e.types) = e.nc
        /\ Len(e.points.d) = 3 * e.np
        /\ Len(con) = e.ends[e.nc]
        /\ \A i \in 1..Len(con) : con[i] % 8 = 0 /\ con[i] \div 8 \in 0..(e.np - 1)
        \* no point that no cell has, if asked for those of elements
        /\ (q[1] # <<>> \/ q[2] # "" \/ q[3]) => {con[i] \div 8 : i \in 1..Len(con)} = 0..(e.np - 1)
        /\ q[3] => \A i, j \in 1..Len(con) : i # j => con[i] # con[j]
        /\ \A n \in 1..Len(arrs) :
             Len(arrs[n][2].d) = arrs[n][2].nc * (IF arrs[n][1] = "PointData" THEN e.np ELSE e.nc)
        /\ q[3] => Own(e)

\* with nodes of its own a cell has the points and values it has with shared ones
OwnNodes ==
  Asked /\ (\A n \in 1..Len(q[4]) : \A m \in 1..Len(q[4][n]) : W.arrs[q[4][n][m]].disc = "any") =>
    LET a == Doc(TRUE)
        b == Doc(FALSE)
        x == Flat2(a.secs)
        y == Flat2(b.secs)
        Same(u, v, nc) == \A i \in 1..Len(a.con) :
                             RowAt(u, nc, a.con[i] \div 8) = RowAt(v, nc, b.con[i] \div 8)
    IN  /\ a.ends = b.ends /\ a.types = b.types /\ Len(a.con) = Len(b.con)
        /\ Same(a.points.d, b.points.d, 3)
        /\ \A n \in 1..Len(x) : IF x[n][1] = "PointData" THEN Same(x[n][2].d, y[n][2].d, x[n][2].nc)
                                ELSE x[n] = y[n]

Edges == IF "EDGES" \in DOMAIN IOEnv THEN PrintT("@E s @ " \o ToString(q') \o " @ s") ELSE TRUE
==============================================================================
