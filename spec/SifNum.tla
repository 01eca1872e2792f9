------------------------------- MODULE SifNum -------------------------------
(***************************************************************************)
(* Answers of queries, and exact arithmetic in Z[sqrt 3].                  *)
(*                                                                         *)
(* An answer is a sequence of items [k, s, d, x]:                          *)
(*   k = "num"  real array     s = shape, d = values in row-major order    *)
(*   k = "cpx"  complex array  s = shape, d = re, im, re, im, ...          *)
(*   k = "txt"  list of texts  x = the texts                               *)
(*   k = "map"  number -> text d = keys (ascending), x = texts             *)
(*   k = "none" nothing                                                    *)
(*   k = "err"  refused        x = acceptable exception names (<<>>: any)  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

Item(k, s, d, x) == [k |-> k, s |-> s, d |-> d, x |-> x]
Num(s, d) == Item("num", s, d, <<>>)
Cpx(s, d) == Item("cpx", s, d, <<>>)
Txt(x) == Item("txt", <<Len(x)>>, <<>>, x)
Map(d, x) == Item("map", <<Len(d)>>, d, x)
None == Item("none", <<>>, <<>>, <<>>)
Err(x) == Item("err", <<>>, <<>>, x)
AnyErr == Err(<<>>)
\* scaled reals, compared with a tolerance of tol units: kind "apx"
Apx(s, d) == Item("apx", s, d, <<>>)
ApxC(s, d) == Item("apxc", s, d, <<>>)
\* nothing is selected: an empty array, or refused
Nothing == Item("nothing", <<>>, <<>>, <<>>)
DontCare == Item("any", <<>>, <<>>, <<>>)      \* not specified

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol

\* is the observed item o what the specification expects (item e)?
ItemOk(e, o, tol) ==
  CASE e.k = "any" -> TRUE
    [] e.k = "nothing" -> o.k = "err" \/ (o.k \in {"num", "cpx"} /\ o.d = <<>>)
    [] e.k = "err" -> o.k = "err" /\ (e.x = <<>> \/ \E i \in 1..Len(e.x) : e.x[i] = o.x[1])
    [] e.k \in {"apx", "apxc"} ->
         /\ o.k = (IF e.k = "apx" THEN "num" ELSE "cpx")
         /\ o.s = e.s /\ Len(o.d) = Len(e.d)
         /\ \A i \in 1..Len(e.d) : Near(e.d[i], o.d[i], tol)
    [] OTHER -> o.k = e.k /\ o.s = e.s /\ o.d = e.d /\ o.x = e.x

AnswerOk(e, o, tol) == /\ Len(e) = Len(o)
                       /\ \A i \in 1..Len(e) : ItemOk(e[i], o[i], tol)

\* ascending sequence of a set of integers
Asc(S) == SetToSortSeq(S, <)
PosIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
Running(n) == [i \in 1..n |-> 8 * (i - 1)]
Flat(ss) == FlattenSeq(ss)
ProdSeq(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)

(* Z[sqrt 3]: <<a, b>> stands for a + b sqrt 3 *)
R0 == <<0, 0>>
R(n) == <<n, 0>>
P3 == <<1, 1>>      \* 1 + sqrt 3
M3 == <<1, -1>>     \* 1 - sqrt 3
Add3(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Mul3(p, q) == <<p[1] * q[1] + 3 * p[2] * q[2], p[1] * q[2] + p[2] * q[1]>>
Scl3(n, p) == <<n * p[1], n * p[2]>>
Sum3(q) == FoldLeft(Add3, R0, q)
\* thousandths of (a + b sqrt 3) / den
Thou(p, den) == (1000 * p[1] + 1732 * p[2] + (51 * p[2]) \div 1000) \div den
==============================================================================
