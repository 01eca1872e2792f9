---------------------------- MODULE SifCalcModel -----------------------------
(***************************************************************************)
(* All stresses of a small grid, all small elements.  The functions are    *)
(* specified in SifCalc by equations their results must satisfy up to      *)
(* rounding; here TLC computes the results themselves - by whole number    *)
(* square roots and by searching the roots of the characteristic equation  *)
(* - and checks that the equations accept them and nothing farther away.   *)
(* With EDGES the arguments are written out and the harness gives all of   *)
(* them to the real code.                                                  *)
(*                                                                         *)
(* World: what ("stress", "pairs"), flat (range of plane stresses), thick  *)
(*        (range of thick shell stresses), row (longest row of numbers),   *)
(*        numbers (element numbers), nodes (node numbers), sizes           *)
(***************************************************************************)
EXTENDS SifCalc, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)
VARIABLES pre, q       \* chosen first, for the workers to share the rest; <<function, argument>>
vars == <<pre, q>>

Flat_ == -W.flat..W.flat
Thick == -W.thick..W.thick
Sizes == ToSet(W.sizes)
NodeRows(n) == {r \in [1..n -> ToSet(W.nodes)] : \A i, j \in 1..n : i # j => r[i] # r[j]}
Init == /\ q = <<>>
        /\ IF W.what = "stress"
           THEN pre \in [1..2 -> Flat_ \union Thick]
           ELSE \E n \in Sizes : pre \in NodeRows(n)
Join(a, b) == a \o b
Stress ==
  \/ \E x \in Flat_, fn \in {"principal2d", "vonmises2d"} :
       pre \in [1..2 -> Flat_] /\ q' = <<fn, <<pre[1], pre[2], x>>>>
  \/ \E x, y, z \in Thick : pre \in [1..2 -> Thick] /\ q' = <<"principal_thickshell", <<pre[1], pre[2], x, y, z>>>>
  \/ \E n \in 0..(W.row - 2) : \E s \in [1..n -> Flat_] : pre \in [1..2 -> Flat_] /\ q' = <<"absmax", pre \o s>>
\* one, two or three elements; every pair there is, in order and reversed
Elements(rows) ==
  LET ends == [i \in 1..Len(rows) |-> FoldLeft(LAMBDA a, r : a + Len(r), 0, SubSeq(rows, 1, i))]
  IN  \E ns \in {x \in [1..Len(rows) -> ToSet(W.numbers)] : \A i, j \in 1..Len(rows) : i # j => x[i] # x[j]} :
        q' = <<"find_elemres_indices", ns, ends, FlattenSeq(rows)>>
Pairs == \/ Elements(<<pre>>)
         \/ \E n \in Sizes : \E r \in NodeRows(n) : Elements(<<pre, r>>)
         \/ W.three /\ \E n, m \in Sizes : \E r \in NodeRows(n), s \in NodeRows(m) :
              Elements(<<pre, r, s>>)
Next == q = <<>> /\ UNCHANGED pre /\ (IF W.what = "stress" THEN Stress ELSE Pairs)
Spec == Init /\ [][Next]_vars
Is(fn) == q # <<>> /\ q[1] = fn

(* --------------------- results, found another way ----------------------- *)
\* the whole number nearest to the square root of n
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN (IF n - lo * lo <= hi * hi - n THEN lo ELSE hi)
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Sqrt(n) == Root(n, 0, 40000)
Half(x) == (x + 1) \div 2

P2(t) == LET s == 100 * (t[1] + t[2])
             d == Sqrt(10000 * ((t[1] - t[2]) * (t[1] - t[2]) + 4 * t[3] * t[3]))
         IN  <<Half(s + d), s - Half(s + d)>>
PlaneAccepts == Is("principal2d") => Principal2d(q[2], P2(q[2]))
PlaneRejects == Is("principal2d") =>
   LET p == P2(q[2])
       tell == (4 * (Mag(p[1]) + Mag(p[2])) + 200) \div MaxI(1, p[1] - p[2])   \* near each other they are less certain
   IN  \A a, b \in {-60, -30, -15, -8, 0, 8, 15, 30, 60} :
          MaxI(Mag(a), Mag(b)) > tell => ~Principal2d(q[2], <<p[1] + a, p[2] + b>>)
\* axes exchanged or reversed: the same principal stresses
PlaneAxes == Is("principal2d") => /\ P2(<<q[2][2], q[2][1], q[2][3]>>) = P2(q[2])
                                  /\ P2(<<q[2][1], q[2][2], -q[2][3]>>) = P2(q[2])

Mises(t) == Sqrt(10000 * (t[1] * t[1] + t[2] * t[2] - t[1] * t[2] + 3 * t[3] * t[3]))
MisesAccepts == Is("vonmises2d") => VonMises2d(q[2], Mises(q[2]))
MisesRejects == Is("vonmises2d") => \A a \in (-60..60) \ (-4..4) : ~VonMises2d(q[2], Mises(q[2]) + a)
\* and that of the principal stresses
MisesPrincipal == Is("vonmises2d") =>
   LET p == P2(q[2])
       v == Mises(q[2])
   IN  Within(v * v, p[1] * p[1] + p[2] * p[2] - p[1] * p[2], 4 * (v + Mag(p[1]) + Mag(p[2])) + 4)

\* the characteristic polynomial of a thick shell stress at x / 20, times 8000
Poly(t, x) == LET e2 == t[1] * t[2] - t[3] * t[3] - t[4] * t[4] - t[5] * t[5]
                  det == 2 * t[3] * t[4] * t[5] - t[1] * t[5] * t[5] - t[2] * t[4] * t[4]
              IN  x * x * x - 20 * (t[1] + t[2]) * x * x + 400 * e2 * x - 8000 * det
Bound == 20 * 3 * W.thick + 1
\* twentieths where it changes sign
Roots(t) == {x \in -Bound..Bound : Poly(t, x) = 0 \/ (((Poly(t, x) < 0) # (Poly(t, x + 1) < 0)) /\ Poly(t, x + 1) # 0)}
\* in hundredths, refined
RECURSIVE Fine(_, _, _)
Fine(t, lo, hi) ==    \* a root between lo / 100 and hi / 100
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
           at(x) == LET e2 == t[1] * t[2] - t[3] * t[3] - t[4] * t[4] - t[5] * t[5]
                        det == 2 * t[3] * t[4] * t[5] - t[1] * t[5] * t[5] - t[2] * t[4] * t[4]
                    IN  x * x * x - 100 * (t[1] + t[2]) * x * x + 10000 * e2 * x - 1000000 * det
       IN  IF (at(lo) < 0) = (at(m) < 0) THEN Fine(t, m, hi) ELSE Fine(t, lo, m)
Kept(t) == LET e == {IF Poly(t, x) = 0 THEN 5 * x ELSE Fine(t, 5 * x, 5 * (x + 1)) : x \in Roots(t)}
               drop == CHOOSE x \in e : \A y \in e : Mag(x) <= Mag(y)
               two == e \ {drop}
           IN  IF Cardinality(e) = 3 THEN <<Max(two), Min(two)>> ELSE <<>>
\* three different principal stresses: these are accepted, and others are not
ThickAccepts == Is("principal_thickshell") =>
   LET k == Kept(q[2])
   IN  IF k = <<>> THEN TRUE
       ELSE IF k[1] - k[2] < 150 THEN PrincipalThick(q[2], k)     \* nearly one
       ELSE \A a, b \in {-50, 0, 50} : (a = 0 /\ b = 0) = PrincipalThick(q[2], <<k[1] + a, k[2] + b>>)
\* without transverse shear: those of plane stress, if both are kept
ThickPlane == Is("principal_thickshell") /\ q[2][4] = 0 /\ q[2][5] = 0 =>
   LET p == P2(<<q[2][1], q[2][2], q[2][3]>>) IN PrincipalThick(q[2], p)

Extremes(s) == {v \in {100 * s[i] : i \in 1..Len(s)} : AbsMax(s, v)}
OneExtreme == Is("absmax") => /\ Extremes(q[2]) # {}
                              /\ \A u, v \in Extremes(q[2]) : Mag(u) = Mag(v)

\* pairs: where the node is that of the element, and only there
Places(e, n) == {i \in 0..(Len(q[4]) - 1) : Position(q[2][e], n, q[2], q[3], q[4], i)}
RowsOf(e) == (IF e = 1 THEN 1 ELSE q[3][e - 1] + 1)..q[3][e]
OnePlace == Is("find_elemres_indices") =>
   \A e \in 1..Len(q[2]) : \A n \in ToSet(W.nodes) :
      LET p == Places(e, n)
      IN  IF Belongs(q[2][e], n, q[2], q[3], q[4])
          THEN Cardinality(p) = 1 /\ \A i \in p : i + 1 \in RowsOf(e) /\ q[4][i + 1] = n
          ELSE p = {}

Edges == IF "EDGES" \in DOMAIN IOEnv THEN PrintT("@E s @ " \o ToString(q') \o " @ s") ELSE TRUE
==============================================================================
