------------------------------ MODULE SifCalc ------------------------------
(***************************************************************************)
(* Derived stress quantities, by their defining equations.                 *)
(*                                                                         *)
(* Stresses are integers (units u), results integers in units of u/100,    *)
(* so an equation of degree n holds up to the rounding of the results.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Mag(x) == IF x < 0 THEN -x ELSE x
Within(a, b, tol) == Mag(a - b) <= tol
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

(***************************************************************************)
(* Plane stress: p1 >= p2 are the roots of x^2 - (sx+sy) x + sx sy - t^2.  *)
(***************************************************************************)
Principal2d(t, p) ==
  LET sx == t[1]
      sy == t[2]
      tau == t[3]
  IN  /\ p[1] >= p[2]
      /\ Within(p[1] + p[2], 100 * (sx + sy), 2)
      /\ Within(p[1] * p[2], 10000 * (sx * sy - tau * tau), Mag(p[1]) + Mag(p[2]) + 2)

(***************************************************************************)
(* Thick shells: of the three eigenvalues of                               *)
(*        | sx  txy txz |                                                  *)
(*        | txy sy  tyz |                                                  *)
(*        | txz tyz 0   |                                                  *)
(* the one of smallest magnitude is left out.  p3 below is that one; all   *)
(* three have the invariants of the tensor.                                *)
(***************************************************************************)
PrincipalThick(t, p) ==
  LET sx == t[1]
      sy == t[2]
      xy == t[3]
      xz == t[4]
      yz == t[5]
      p1 == p[1]
      p2 == p[2]
      p3 == 100 * (sx + sy) - p1 - p2
      e2 == sx * sy - xy * xy - xz * xz - yz * yz
      det == 2 * xy * yz * xz - sx * yz * yz - sy * xz * xz
      m == Mag(p1) + Mag(p2) + Mag(p3)
      q == (p1 * p2) \div 1000
  IN  /\ p1 >= p2
      /\ Mag(p3) <= MinI(Mag(p1), Mag(p2)) + 3
      /\ Within(p1 * p2 + p1 * p3 + p2 * p3, 10000 * e2, 2 * m + 4)
      /\ Within(q * p3, 1000 * det, Mag(p3) * (2 + m \div 1000) + 2 * Mag(q) + 10)

\* plane stress equivalent: v >= 0, v^2 = sx^2 + sy^2 - sx sy + 3 t^2
VonMises2d(t, v) ==
  /\ v >= 0
  /\ Within(v * v, 10000 * (t[1] * t[1] + t[2] * t[2] - t[1] * t[2] + 3 * t[3] * t[3]), 2 * v + 2)

\* signed extreme: one of the entries, and none has a larger magnitude
AbsMax(q, v) == /\ \E i \in 1..Len(q) : v = 100 * q[i]
                /\ \A i \in 1..Len(q) : Mag(100 * q[i]) <= Mag(v)

(***************************************************************************)
(* Element node pairs: the position on the element node axis (rows:        *)
(* node numbers, element by element, ends: where each element ends) that   *)
(* belongs to a node of an element.                                        *)
(***************************************************************************)
Position(elem, node, elems, ends, rows, i) ==
  \E e \in 1..Len(elems) :
    /\ elems[e] = elem
    /\ i >= (IF e = 1 THEN 0 ELSE ends[e - 1]) /\ i < ends[e]
    /\ rows[i + 1] = node

\* some node of the element has this number
Belongs(elem, node, elems, ends, rows) ==
  \E e \in 1..Len(elems) : /\ elems[e] = elem
                          /\ \E i \in (IF e = 1 THEN 1 ELSE ends[e - 1] + 1)..ends[e] : rows[i] = node

(* ---------------------- whole arrays, row by row ----------------------- *)
Row(d, n, k) == SubSeq(d, (k - 1) * n + 1, k * n)
Lead(s) == SubSeq(s, 1, Len(s) - 1)
NRow(s) == Prod(Lead(s))
\* shape of the result
PairShape(s) == Append(Lead(s), 2)
RowsOk(P(_, _), s, d, out) ==
  \A k \in 1..NRow(s) : P(Row(d, s[Len(s)], k), Row(out, 2, k))
ScalarsOk(P(_, _), s, d, out) ==
  \A k \in 1..NRow(s) : P(Row(d, s[Len(s)], k), out[k])

\* along an axis (1-based; 0: over everything)
AxisShape(s, ax) == IF ax = 0 THEN <<>> ELSE SubSeq(s, 1, ax - 1) \o SubSeq(s, ax + 1, Len(s))
Along(s, d, ax, k) ==
  IF ax = 0 THEN d
  ELSE LET inner == Prod(SubSeq(s, ax + 1, Len(s)))
           o == (k - 1) \div inner
           i == (k - 1) % inner
       IN  [j \in 1..s[ax] |-> d[(o * s[ax] + j - 1) * inner + i + 1]]
AbsMaxOk(s, d, ax, out) ==
  \A k \in 1..Prod(AxisShape(s, ax)) : AbsMax(Along(s, d, ax, k), out[k])
==============================================================================
