------------------------------ MODULE SifQuery ------------------------------
(***************************************************************************)
(* Every question of a kind that can be asked of a small structural        *)
(* dataset: all lists of set names up to a length, all kinds of elements,  *)
(* shared and disconnected, all kinds of results, all lists of result      *)
(* cases.  TLC checks the laws below on every one of them; with EDGES the  *)
(* questions are written out and the harness asks all of them.             *)
(*                                                                         *)
(* World: files, disk, top (key of the file), ds (path), sets (names),     *)
(*        nsets, fns, restypes, runs, rcs ([m, v]), poss                   *)
(***************************************************************************)
EXTENDS SifStore, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)
ASSUME TLCSet(7, LET db == Datasets({W.files[k] : k \in ToSet(W.disk)}, W.files[W.top], TRUE, "", {})
                 IN  [c |-> db[W.ds].c, attr |-> db[W.ds].attr, top |-> Emp])
D == TLCGet(7)               \* computed once
C == D.c

VARIABLES pre, q      \* what is chosen first (so that TLC's workers share the rest), the question
vars == <<pre, q>>

SetArgs == UNION {[1..n -> ToSet(W.sets)] : n \in 0..W.nsets}
Rc0 == [m |-> "none", v |-> <<>>]
Init == /\ pre \in [s : SetArgs, run : ToSet(W.runs), rc : ToSet(W.rcs) \union {Rc0}]
        /\ q = <<>>
Q(fn, k, disc, nt, rt, pos) == <<fn, pre.s, k, disc, nt, rt, pre.run, pre.rc.m, pre.rc.v, pos>>
Arg(x) == [sets |-> x[2], kind |-> x[3], disc |-> x[4], ntype |-> x[5], restype |-> x[6], run |-> x[7],
           rc |-> [m |-> x[8], v |-> x[9]], pos |-> x[10], trans |-> [m |-> "none", v |-> <<>>], index |-> 1]
Fns == ToSet(W.fns)
\* not empty, or refused
Sensible(s, k) == IF Selectable(C, s, k) THEN Selected(C, s, k) # <<>> ELSE TRUE
TypesOf(s, k) == {ElTyp(C, e) : e \in ToSet(Selected(C, s, k))}
OneTheory(s, k, rt, pos) ==
  IF ~Selectable(C, s, k) THEN TRUE
  ELSE LET t == TypesOf(s, k)
       IN  /\ ~(t \intersect {24, 25} # {} /\ t \intersect {26, 28} # {})
           /\ pos = "respts" => rt # "decomposedstress" /\ (t = {23} \/ t \subseteq {26, 28})

Ask(x) == q' = x /\ UNCHANGED pre
Kinds == {"", "beam", "shell"}
Plainly == pre.rc = Rc0 /\ pre.run = W.runs[1]     \* no result case in the question
AskPlain ==
  /\ Plainly
  /\ \/ \E k \in Kinds, fn \in Fns \intersect {"get_elements", "get_nodes"}, d \in BOOLEAN :
          Ask(Q(fn, k, d, "external", "", "nodes"))
     \/ \E k \in Kinds, fn \in Fns \intersect {"get_nodenumbers", "get_elementnumbers"}, d \in BOOLEAN,
          t \in {"external", "internal"} :
          /\ fn = "get_elementnumbers" => ~d
          /\ Ask(Q(fn, k, d, t, "", "nodes"))
     \/ \E fn \in Fns \intersect {"get_section_properties", "get_shell_thicknesses"} :
          /\ Ask(Q(fn, "", FALSE, "external", "", "nodes"))
AskResults ==
  \/ /\ "get_noderesults" \in Fns
     /\ \E k \in Kinds, d \in BOOLEAN, rt \in ToSet(W.restypes) :
          Sensible(pre.s, k) /\ Ask(Q("get_noderesults", k, d, "external", rt, "nodes"))
  \/ /\ "get_elementresults" \in Fns
     /\ \E rt \in ToSet(W.restypes), pos \in ToSet(W.poss) :
          LET k == IF rt = "beamforce" THEN "beam" ELSE "shell"
          IN  /\ Sensible(pre.s, k) /\ OneTheory(pre.s, k, rt, pos)
              /\ Ask(Q("get_elementresults", "", FALSE, "external", rt, pos))
Next == q = <<>> /\ (AskPlain \/ AskResults)
Spec == Init /\ [][Next]_vars

(* -------------------------------- the laws ------------------------------ *)
Asked == q # <<>>
A == Arg(q)
Answer(a) == StrucAnswer(D, q[1], a)
IsErr(x) == x[1].k = "err"
With(f, v) == [A EXCEPT ![f] = v]
Is(fn) == Asked /\ q[1] = fn
Good == Asked /\ ~IsErr(Answer(A))
NumSet(a) == ToSet(StrucAnswer(D, "get_elementnumbers", a)[1].d)

\* sets are joined, in any order, and elements come once
Union_ == Is("get_elementnumbers") /\ Good =>
   LET n == Answer(A)[1].d
   IN  /\ Cardinality(ToSet(n)) = Len(n)
       /\ Len(A.sets) = 2 =>
            /\ ToSet(n) = NumSet(With("sets", <<A.sets[1]>>)) \union NumSet(With("sets", <<A.sets[2]>>))
            /\ Answer(A) = Answer(With("sets", <<A.sets[2], A.sets[1]>>))
       /\ A.sets # <<>> => ToSet(n) \subseteq NumSet(With("sets", <<>>))
\* beams and shells are told apart, and are part of all
Parts == Is("get_elementnumbers") /\ Good =>
   /\ NumSet(With("kind", "beam")) \intersect NumSet(With("kind", "shell")) = {}
   /\ \A k \in {"beam", "shell"} : NumSet(With("kind", k)) \subseteq NumSet(With("kind", ""))
\* internal and external numbers name the same elements
SameElements == Is("get_elementnumbers") /\ Good =>
   LET i == Answer(With("ntype", "internal"))[1].d
       x == Answer(With("ntype", "external"))[1].d
   IN  /\ Len(i) = Len(x)
       /\ \A k \in 1..Len(i) : F(C["GELMNT1"][I(i[k])], "elnox") = x[k]
\* connectivity points at the element's own nodes
Points_ == Is("get_elements") /\ Good =>
   LET r == Answer(A)
       ns == NodeList(C, A.sets, A.kind, A.disc)
       es == Selected(C, A.sets, A.kind)
   IN  /\ Len(r[2].d) = Len(es) /\ Len(r[3].d) = Len(es)
       /\ (IF es = <<>> THEN 0 ELSE I(r[2].d[Len(es)])) = Len(r[1].d)
       /\ \A k \in 1..Len(r[1].d) : ns[1 + I(r[1].d[k])] = ElemNodes(C, A.sets, A.kind)[k]
       /\ A.disc => Len(ns) = Len(r[1].d)
\* disconnected rows are the shared ones, gathered
Gather == (Is("get_nodes") \/ Is("get_noderesults")) /\ Good /\ A.disc /\ (q[1] = "get_noderesults" => Len(Answer(A)[1].s) = 2) =>
   LET x == Answer(A)[1]
       y == Answer(With("disc", FALSE))[1]
       con == StrucAnswer(D, "get_elements", With("disc", FALSE))[1].d
       per == IF x.s[1] = 0 THEN 0 ELSE Len(x.d) \div x.s[1]
   IN  /\ x.s[1] = Len(con)
       /\ x.d = Flat([k \in 1..Len(con) |-> SubSeq(y.d, I(con[k]) * per + 1, (I(con[k]) + 1) * per)])
\* a list of result cases: the single ones stacked, in the order of the file, each once
Stacked == (Is("get_noderesults") \/ (Is("get_elementresults") /\ A.sets = <<>>)) /\ Answerable(Cases(C, A)) /\ Good =>
   LET cs == Cases(C, A)
       r == Answer(A)[1]
       one(i) == Answer(With("rc", [m |-> "int", v |-> <<FI(cs[i], "ieres")>>]))[1]
   IN  /\ r.d = Flat([i \in 1..Len(cs) |-> one(i).d])
       /\ Len(cs) > 1 => r.s = <<Len(cs)>> \o one(1).s
       /\ A.rc.m # "none" => {FI(cs[i], "ieres") : i \in 1..Len(cs)} \subseteq ToSet(A.rc.v)
       /\ \A i \in 1..Len(cs) : FI(cs[i], "irno") = A.run
\* element results have as many rows as the disconnected nodes of their elements
Rows_ == Is("get_elementresults") /\ A.pos = "nodes" /\ A.rc.m = "int" /\ Len(Cases(C, A)) = 1 /\ Good =>
   LET k == IF A.restype = "beamforce" THEN "beam" ELSE "shell"
   IN  Answer(A)[1].s[1] = Len(NodeList(C, A.sets, k, TRUE))
\* nothing is invented: a name that is no set is refused
Unknown_ == Asked /\ (\E i \in 1..Len(A.sets) : ~SetKnown(C, A.sets[i])) => IsErr(Answer(A))

(* Extrapolation: fields that vary linearly over the element and through   *)
(* its thickness are reproduced exactly.                                   *)
QuadOk == \A n \in 1..8 : /\ Sum3([p \in 1..4 |-> WQuad(n, p)]) = R(4)
                          /\ Sum3([p \in 1..4 |-> Scl3(PtXi[p], WQuad(n, p))]) = <<0, 4 * NdXi[n]>>
                          /\ Sum3([p \in 1..4 |-> Scl3(PtEta[p], WQuad(n, p))]) = <<0, 4 * NdEta[n]>>
                          /\ Sum3([p \in 1..4 |-> Scl3(PtXi[p] * PtEta[p], WQuad(n, p))]) = R(12 * NdXi[n] * NdEta[n])
TriOk == \A n \in 1..6 : /\ Sum3([p \in 1..3 |-> WTri(n, p)]) = R(3)
                         /\ \A i \in 1..3 : Sum3([p \in 1..3 |-> Scl3(IF p = i THEN 4 ELSE 1, WTri(n, p))])
                                              = R(9 * NdArea[n][i])
LayOk == \A s \in 1..2 : /\ Sum3([l \in 1..2 |-> WLay(s, l)]) = R(2)
                         /\ Sum3([l \in 1..2 |-> Scl3(2 * l - 3, WLay(s, l))]) = <<0, 2 * (2 * s - 3)>>
BeamOk == \A n \in 1..3 : /\ Sum3([p \in 1..2 |-> Lin(n - 2, 2 * p - 3)]) = R(2)
                          /\ Sum3([p \in 1..2 |-> Scl3(2 * p - 3, Lin(n - 2, 2 * p - 3))]) = <<0, 2 * (n - 2)>>
ASSUME QuadOk /\ TriOk /\ LayOk /\ BeamOk

Edges == IF "EDGES" \in DOMAIN IOEnv THEN PrintT("@E s @ " \o ToString(q') \o " @ s") ELSE TRUE
==============================================================================
