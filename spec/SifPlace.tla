------------------------------ MODULE SifPlace -------------------------------
(***************************************************************************)
(* Where a superelement repetition is placed.  A climber begins at a       *)
(* repetition and goes up, parent by parent, to the top; the matrix it     *)
(* carries is the product of the transformations it passed.  TLC takes     *)
(* every climb in a small hierarchy and checks that the answers of the     *)
(* specification (SifStruc!Transformation, GetNodes) are where the climber *)
(* is, that levels it does not pass are refused, and that placements       *)
(* compose.  At every place all questions about it are asked; with EDGES   *)
(* they are written out for the harness to ask the real code.              *)
(*                                                                         *)
(* World: files, disk, top (key of the top level file), name (path of the  *)
(*        top level dataset), mats (matrices given by a caller)            *)
(***************************************************************************)
EXTENDS SifStore, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)
ASSUME TLCSet(7, Datasets({W.files[k] : k \in ToSet(W.disk)}, W.files[W.top], TRUE, "", {}))
DB == TLCGet(7)              \* computed once
Top == DB[W.name].c
Rows == HRows(Top)
Lvl(i) == FI(Rows[i], "islevl")
TopLvl == TopLevel(Top)
Parent(i) == IF FI(Rows[i], "ihpref") = 0 THEN 0
             ELSE CHOOSE j \in 1..Len(Rows) : F(Rows[j], "ihref") = F(Rows[i], "ihpref")
Sel_(i) == FI(Rows[i], "iselty")
Idx(i) == FI(Rows[i], "indsel")
\* datasets of first level superelements
Leaves == {p \in DOMAIN DB : DB[p].top # "" /\ DB[p].attr.level = "FIRSTLEVEL"}
Set(p) == [c |-> DB[p].c, attr |-> DB[p].attr, top |-> Top]
\* the dataset that holds a repetition: model data are shared by all of a type
SetOf(i) == {p \in Leaves : /\ DB[p].attr.seltyp = Sel_(i)
                            /\ DB[p].attr.ftype = "R" => DB[p].attr.index = Idx(i)}

VARIABLES from, at, t, q
vars == <<from, at, t, q>>
Init == /\ from \in 1..Len(Rows) /\ at = from /\ t = Identity4 /\ q = <<>>
Up == /\ q = <<>> /\ Parent(at) # 0
      /\ t' = MatMul(t, TransOf(Top, Rows[at]))
      /\ at' = Parent(at)
      /\ UNCHANGED <<from, q>>

\* the questions: <<fn, dataset, seltyp, index, way the level is given, level, matrix, disconnected>>
Levels == -1..(TopLvl + 1)
Ask(x) == q = <<>> /\ q' = x /\ UNCHANGED <<from, at, t>>
AskMatrix == /\ at = from
             /\ \/ \E l \in Levels : Ask(<<"get_transformation", W.name, Sel_(from), Idx(from), "int", l, 0, FALSE>>)
                \/ Ask(<<"get_transformation", W.name, Sel_(from), Idx(from), "top", 0, 0, FALSE>>)
                \/ Ask(<<"get_transformation", W.name, Sel_(from), Idx(from) + 20, "top", 0, 0, FALSE>>)
                \/ Ask(<<"get_transformation", W.name, 98, 1, "int", TopLvl, 0, FALSE>>)
AskNodes == \E p \in SetOf(from), disc \in BOOLEAN :
  \/ Ask(<<"get_nodes", p, 0, Idx(from), "int", Lvl(at), 0, disc>>)
  \/ at = from /\ \E l \in Levels : Ask(<<"get_nodes", p, 0, Idx(from), "int", l, 0, disc>>)
  \/ at = from /\ \E i \in 1..Len(W.mats) : Ask(<<"get_nodes", p, 0, Idx(from), "mat", 0, i, disc>>)
  \/ at = from /\ \E m \in {"top", "none", "bad"} : Ask(<<"get_nodes", p, 0, Idx(from), m, 0, 0, disc>>)
  \/ at = from /\ Ask(<<"get_nodes", p, 0, Idx(from) + 20, "top", 0, 0, disc>>)
Next == Up \/ AskMatrix \/ AskNodes
Spec == Init /\ [][Next]_vars

(* --------------------------------- laws --------------------------------- *)
Place(i, l) == Transformation(Top, Sel_(i), Idx(i), l)
\* the answer for the level the climber is on is the matrix it carries
Carried == at # from => Place(from, Lvl(at)) = [ok |-> TRUE, t |-> t]
\* the top level by its name or its number
ByName == Place(from, TopName) = (IF TopLvl = 1 THEN Place(from, TopName) ELSE Place(from, TopLvl))
RECURSIVE Path(_)
Path(i) == IF Parent(i) = 0 THEN {} ELSE {Lvl(Parent(i))} \union Path(Parent(i))
\* only levels on the way up have a place, and the first
Only == at = from => \A l \in Levels : Place(from, l).ok <=> (l = 1 \/ l \in Path(from))
Local == Place(from, 1) = [ok |-> TRUE, t |-> Identity4]
\* places compose
Compose == (at # from /\ Lvl(at) # TopLvl /\ Lvl(at) > 1) =>
              MatMul(t, Place(at, TopName).t) = Place(from, TopName).t
\* nodes are where the matrix puts the local ones; a model dataset serves all its
\* repetitions, a result dataset only its own
Arg(tr, lv, m, idx, disc) == [sets |-> <<>>, kind |-> "", disc |-> disc, index |-> idx,
                              trans |-> [m |-> tr, v |-> IF tr = "int" THEN <<lv>> ELSE IF tr = "mat" THEN W.mats[m] ELSE <<>>]]
Nodes(p, a) == GetNodes(Set(p), a)[1]
Tri(d, k) == SubSeq(d, 3 * k - 2, 3 * k)
Placed == (q = <<>> /\ at # from) => \A p \in SetOf(from), disc \in BOOLEAN :
   LET loc == Nodes(p, Arg("none", 0, 0, 1, disc))
       glo == Nodes(p, Arg("int", Lvl(at), 0, Idx(from), disc))
   IN  /\ glo.s = loc.s
       /\ \A k \in 1..loc.s[1] : Tri(glo.d, k) = Apply(Tri(loc.d, k), t)
       /\ glo = Nodes(p, Arg("int", Lvl(at), 0, IF DB[p].attr.ftype = "R" THEN 17 ELSE Idx(from), disc))
\* coordinates are moved rigidly by what the climber adds: two steps or one
Twice == (q = <<>> /\ at # from /\ Lvl(at) # TopLvl /\ Lvl(at) > 1) => \A p \in SetOf(from) :
   LET mid == Nodes(p, Arg("int", Lvl(at), 0, Idx(from), FALSE))
       up == Nodes(p, Arg("top", 0, 0, Idx(from), FALSE))
   IN  \A k \in 1..mid.s[1] : Tri(up.d, k) = Apply(Tri(mid.d, k), Place(at, TopName).t)
Edges == IF "EDGES" \in DOMAIN IOEnv /\ q' # <<>> THEN PrintT("@E s @ " \o ToString(q') \o " @ s") ELSE TRUE
==============================================================================
