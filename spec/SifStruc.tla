------------------------------ MODULE SifStruc ------------------------------
(***************************************************************************)
(* What the queries of a structural dataset return, as functions of the    *)
(* stored content (SifFormat!Decode) and the arguments.                    *)
(*                                                                         *)
(* Assumed of the files (as Sesam writes them): nodes and elements appear  *)
(* in the order of their internal numbers 1, 2, ...                        *)
(*                                                                         *)
(* Arguments: sets = sequence of set names (<<>> = no restriction),        *)
(* kind = "" | "beam" | "shell", disc = disconnected.                      *)
(***************************************************************************)
EXTENDS SifFormat, SifNum

Has(ds, t) == t \in DOMAIN ds /\ ds[t] # <<>>
F(row, col) == row.c[col][1]               \* a single-value column, in eighths
FI(row, col) == I(F(row, col))
RowsWhere(ds, t, ok(_)) == IF t \in DOMAIN ds THEN SelectSeq(ds[t], ok) ELSE <<>>

(* ------------------------------ elements ------------------------------- *)
NEl(ds) == Len(ds["GELMNT1"])
NNo(ds) == Len(ds["GCOORD"])
ElTyp(ds, e) == FI(ds["GELMNT1"][e], "eltyp")
ElNodes(ds, e) == LET q == ds["GELMNT1"][e].a["nodin"] IN [i \in 1..Len(q) |-> I(q[i])]
BeamTypes == {15, 23}
ShellTypes == {24, 25, 26, 28}

\* the elements that are members of the named set
SetKnown(ds, name) == \E i \in 1..(IF "TDSETNAM" \in DOMAIN ds THEN Len(ds["TDSETNAM"]) ELSE 0) :
                          ds["TDSETNAM"][i].x["name"] = <<name>>
SetMembers(ds, name) ==
  LET i == CHOOSE j \in 1..Len(ds["TDSETNAM"]) :
              /\ ds["TDSETNAM"][j].x["name"] = <<name>>
              /\ \A k \in 1..(j - 1) : ds["TDSETNAM"][k].x["name"] # <<name>>
      no == F(ds["TDSETNAM"][i], "idno")
      memb == RowsWhere(ds, "GSETMEMB", LAMBDA r : F(r, "isref") = no /\ FI(r, "istype") = 2)
  IN  UNION {{I(memb[k].a["irmemb"][j]) : j \in 1..Len(memb[k].a["irmemb"])} : k \in 1..Len(memb)}

OfKind(ds, kind) == {e \in 1..NEl(ds) :
                       CASE kind = ""      -> TRUE
                         [] kind = "beam"  -> ElTyp(ds, e) \in BeamTypes
                         [] kind = "shell" -> ElTyp(ds, e) \in ShellTypes}
InSets(ds, sets) == IF sets = <<>> THEN 1..NEl(ds)
                    ELSE UNION {SetMembers(ds, sets[i]) : i \in 1..Len(sets)}
\* the selected elements, ascending
Selected(ds, sets, kind) == Asc(OfKind(ds, kind) \intersect InSets(ds, sets))
Selectable(ds, sets, kind) == /\ \A i \in 1..Len(sets) : SetKnown(ds, sets[i])
                              /\ kind \in {"", "beam", "shell"}

(* -------------------------------- nodes -------------------------------- *)
ElemNodes(ds, sets, kind) ==              \* node by node of the elements
  LET es == Selected(ds, sets, kind) IN Flat([i \in 1..Len(es) |-> ElNodes(ds, es[i])])
\* the node at every position of a node array
NodeList(ds, sets, kind, disc) ==
  IF disc THEN ElemNodes(ds, sets, kind)
  ELSE IF sets = <<>> /\ kind = "" THEN [i \in 1..NNo(ds) |-> i]
  ELSE Asc(ToSet(ElemNodes(ds, sets, kind)))

Coord(ds, n) == <<F(ds["GCOORD"][n], "xcoord"), F(ds["GCOORD"][n], "ycoord"),
                  F(ds["GCOORD"][n], "zcoord")>>

(* a 4x4 matrix is a sequence of 16 numbers, row by row; coordinates are
   row vectors.  All matrices used hold whole numbers (of 8 eighths). *)
MatMul(p, q) == TLCEval([i \in 1..16 |->
                   LET r == (i - 1) \div 4  c == (i - 1) % 4
                   IN  SumSeq([k \in 1..4 |-> I(p[4 * r + k]) * q[4 * (k - 1) + c + 1]])])
Identity4 == [i \in 1..16 |-> IF (i - 1) \div 4 = (i - 1) % 4 THEN 8 ELSE 0]
Apply(xyz, t) == [c \in 1..3 |-> xyz[1] * I(t[c]) + xyz[2] * I(t[4 + c])
                                   + xyz[3] * I(t[8 + c]) + t[12 + c]]

(* --------------------------- superelements ----------------------------- *)
\* top: content of the top level dataset
HRows(top) == top["HIERARCH"]
TopLevel(top) == FI(HRows(top)[1], "islevl")
HMatch(top, ok(_)) == {i \in 1..Len(HRows(top)) : ok(HRows(top)[i])}
TransOf(top, h) ==      \* the transformation a hierarchy record refers to
  LET s == RowsWhere(top, "HSUPTRAN", LAMBDA r : F(r, "itref") = F(h, "itref"))
  IN  s[1].c["t"]
\* the chain of a repetition up to the record at the level: <<found, matrix>>
RECURSIVE Climb(_, _, _, _)
Climb(top, h, level, acc) ==     \* h: record whose transformation was applied last
  LET ps == HMatch(top, LAMBDA r : F(r, "ihref") = F(h, "ihpref"))
  IN  IF ps = {} THEN [ok |-> FALSE, t |-> <<>>]
      ELSE LET p == HRows(top)[Min(ps)]
           IN  IF FI(p, "islevl") > level THEN [ok |-> FALSE, t |-> <<>>]
               ELSE IF FI(p, "islevl") = level THEN [ok |-> TRUE, t |-> acc]
               ELSE Climb(top, p, level, MatMul(acc, TransOf(top, p)))

TopName == -1000000        \* stands for the level argument 'top'
Transformation(top, seltyp, index, levelarg) ==
  LET level == IF levelarg = TopName THEN TopLevel(top) ELSE levelarg
      hs == HMatch(top, LAMBDA r : FI(r, "iselty") = seltyp /\ FI(r, "indsel") = index)
  IN  IF level = 1 /\ levelarg # TopName THEN [ok |-> TRUE, t |-> Identity4]
      ELSE IF level > TopLevel(top) \/ level < 1 \/ hs = {} THEN [ok |-> FALSE, t |-> <<>>]
      ELSE LET h == HRows(top)[Min(hs)]
           IN  IF FI(h, "islevl") >= level THEN [ok |-> FALSE, t |-> <<>>]
               ELSE Climb(top, h, level, TransOf(top, h))

\* the transformation get_nodes has to use.  d = dataset record
\* [c content, top content of its top level (or Emp), attr]; tr = argument:
\* [m |-> "none" | "top" | "int" | "mat", v |-> level or matrix]
NodeTrans(d, tr, index) ==
  CASE tr.m = "none" -> [ok |-> TRUE, t |-> Identity4]
    [] tr.m = "mat"  -> [ok |-> Len(tr.v) = 16, t |-> tr.v]
    [] tr.m = "bad"  -> [ok |-> FALSE, t |-> <<>>]
    [] OTHER ->
         LET idx == IF d.attr.ftype = "R" THEN d.attr.index ELSE index
             lvl == IF tr.m = "top" THEN TopName ELSE tr.v[1]
         IN  IF DOMAIN d.top # {} THEN Transformation(d.top, d.attr.seltyp, idx, lvl)
             ELSE IF tr.m = "top" /\ Has(d.c, "RSUPTRAN")
                  THEN [ok |-> TRUE, t |-> d.c["RSUPTRAN"][1].c["t"]]
             ELSE [ok |-> FALSE, t |-> <<>>]

(* ----------------------------- simple queries --------------------------- *)
GetNodes(d, a) ==
  LET ds == d.c
      ns == NodeList(ds, a.sets, a.kind, a.disc)
      tr == NodeTrans(d, a.trans, a.index)
  IN  IF ~Has(ds, "GCOORD") \/ ~Selectable(ds, a.sets, a.kind) \/ ~tr.ok THEN <<AnyErr>>
      ELSE <<Num(<<Len(ns), 3>>, Flat([i \in 1..Len(ns) |-> Apply(Coord(ds, ns[i]), tr.t)]))>>

GetNodeNumbers(d, a) ==
  LET ds == d.c
      ns == NodeList(ds, a.sets, a.kind, a.disc)
      col == IF a.ntype = "external" THEN "nodex" ELSE "nodeno"
  IN  IF ~Selectable(ds, a.sets, a.kind) \/ a.ntype \notin {"external", "internal"} THEN <<AnyErr>>
      ELSE <<Num(<<Len(ns)>>, [i \in 1..Len(ns) |-> F(ds["GNODE"][ns[i]], col)])>>

GetElements(d, a) ==
  LET ds == d.c
      es == Selected(ds, a.sets, a.kind)
      en == ElemNodes(ds, a.sets, a.kind)
      nl == NodeList(ds, a.sets, a.kind, FALSE)
  IN  IF ~Selectable(ds, a.sets, a.kind) THEN <<AnyErr>>
      ELSE <<Num(<<Len(en)>>, IF a.disc THEN Running(Len(en))
                              ELSE [i \in 1..Len(en) |-> 8 * (PosIn(nl, en[i]) - 1)]),
             Num(<<Len(es)>>, [i \in 1..Len(es) |->
                                 8 * SumSeq([j \in 1..i |-> Len(ElNodes(ds, es[j]))])]),
             Num(<<Len(es)>>, [i \in 1..Len(es) |-> F(ds["GELMNT1"][es[i]], "eltyp")])>>

GetElementNumbers(d, a) ==
  LET ds == d.c
      es == Selected(ds, a.sets, a.kind)
      col == IF a.ntype = "external" THEN "elnox" ELSE "elno"
  IN  IF ~Selectable(ds, a.sets, a.kind) \/ a.ntype \notin {"external", "internal"} THEN <<AnyErr>>
      ELSE <<Num(<<Len(es)>>, [i \in 1..Len(es) |-> F(ds["GELMNT1"][es[i]], col)])>>

(* section properties and thicknesses: the record with the element's geono *)
GeoRow(ds, t, e) == LET g == F(ds["GELREF1"][e], "geono")
                        s == RowsWhere(ds, t, LAMBDA r : F(r, "geono") = g)
                    IN  s[Len(s)]
GetSections(d, a) ==
  LET ds == d.c
      es == Selected(ds, a.sets, "beam")
      cols == Plain.GBEAMG
  IN  IF ~Selectable(ds, a.sets, "beam") \/ ~Has(ds, "GBEAMG") THEN <<AnyErr>>
      ELSE IF es = <<>> THEN <<Nothing>>
      ELSE <<Num(<<Len(es), Len(cols)>>,
                 Flat([i \in 1..Len(es) |->
                         LET r == GeoRow(ds, "GBEAMG", es[i])
                         IN  [k \in 1..Len(cols) |-> F(r, cols[k])]]))>>
GetThicknesses(d, a) ==
  LET ds == d.c
      es == Selected(ds, a.sets, "shell")
  IN  IF ~Selectable(ds, a.sets, "shell") \/ ~Has(ds, "GELTH") THEN <<AnyErr>>
      ELSE IF es = <<>> THEN <<Nothing>>
      ELSE <<Num(<<Len(es)>>, [i \in 1..Len(es) |-> F(GeoRow(ds, "GELTH", es[i]), "th")])>>

GetSetNames(d, a) ==
  IF "TDSETNAM" \notin DOMAIN d.c THEN <<None>>
  ELSE <<Txt([i \in 1..Len(d.c["TDSETNAM"]) |-> d.c["TDSETNAM"][i].x["name"][1]])>>

\* a.rc = [m |-> "none" | "int" | "list" | ..., v |-> numbers]
GetResultCaseNames(d, a) ==
  IF "TDLOAD" \notin DOMAIN d.c THEN <<AnyErr>>
  ELSE LET rows == RowsWhere(d.c, "TDLOAD", LAMBDA r : a.rc.m = "none"
                                                   \/ FI(r, "idno") \in ToSet(a.rc.v))
           ids == Asc({F(rows[i], "idno") : i \in 1..Len(rows)})
       IN  <<Map(ids, [k \in 1..Len(ids) |->
                  rows[Max({i \in 1..Len(rows) : F(rows[i], "idno") = ids[k]})].x["name"][1]])>>

(* -------------------------------- results ------------------------------- *)
\* the requested result cases, in file order: rows of RDRESREF
Cases(ds, a) == RowsWhere(ds, "RDRESREF", LAMBDA r : FI(r, "irno") = a.run
                             /\ (a.rc.m = "none" \/ FI(r, "ieres") \in ToSet(a.rc.v)))
Uniform(cs) == \A i, j \in 1..Len(cs) : F(cs[i], "icompl") = F(cs[j], "icompl")
Answerable(cs) == cs # <<>> /\ Uniform(cs)
IsCpx(cs) == F(cs[1], "icompl") # 0
ErrOf(cs) == IF cs # <<>> /\ ~Uniform(cs) THEN Err(<<"ResultError">>) ELSE AnyErr

NodeTab == ("displacement" :> <<"RVNODDIS", "dis">>) @@ ("velocity" :> <<"RVNODVEL", "vel">>)
             @@ ("acceleration" :> <<"RVNODACC", "acc">>)

\* the record of a table that belongs to result case c and item n
ResRow(rows, col, c, n) == rows[CHOOSE i \in 1..Len(rows) :
                                    F(rows[i], "ires") = F(c, "ires") /\ FI(rows[i], col) = n]

LeadShape(cs, s) == IF Len(cs) > 1 THEN <<Len(cs)>> \o s ELSE s

GetNodeResults(d, a) ==
  LET ds == d.c
      cs == TLCEval(Cases(ds, a))
      ns == TLCEval(NodeList(ds, a.sets, a.kind, a.disc))
  IN  IF a.restype \notin DOMAIN NodeTab THEN <<AnyErr>>
      ELSE LET tab == NodeTab[a.restype]
           IN  IF ~Has(ds, tab[1]) \/ ~Selectable(ds, a.sets, a.kind) \/ ~Answerable(cs)
               THEN <<IF Has(ds, tab[1]) /\ Selectable(ds, a.sets, a.kind) THEN ErrOf(cs) ELSE AnyErr>>
               ELSE IF ns = <<>> THEN <<Nothing>>
               ELSE LET rows == ds[tab[1]]
                        vals == Flat([k \in 1..Len(cs) |-> Flat([i \in 1..Len(ns) |->
                                   ResRow(rows, "iinod", cs[k], ns[i]).a[tab[2]]])])
                        shape == LeadShape(cs, <<Len(ns), 6>>)
                    IN  <<IF IsCpx(cs) THEN Cpx(shape, vals) ELSE Num(shape, vals)>>

(* Element results.  The stored values v of one element are a matrix of
   result points x components (complex: two numbers per component).        *)
\* real or imaginary part (q = 0, 1) of component j of result point p
Val(v, cpl, nc, p, j, q) == IF cpl THEN v[2 * ((p - 1) * nc + j - 1) + 1 + q] ELSE v[(p - 1) * nc + j]

\* where the result points of a thin shell lie: the node of each point of one
\* surface (0: the centre); lower surface first, then upper
ThinPts == (24 :> <<1, 2, 0, 4, 3>>) @@ (25 :> <<1, 2, 0, 3>>)
ThinPt(typ, surf, node) == LET m == ThinPts[typ]
                           IN  (surf - 1) * Len(m) + PosIn(m, node)

(* Thick shells: shape functions.  The result points lie at +-1/sqrt 3 of the
   natural coordinates; weights are given in Z[sqrt 3] over a denominator. *)
\* (1 + sqrt3 * xi * s) for xi in {-1, 0, 1} and point sign s
Lin(xi, s) == <<1, xi * s>>
PtXi  == <<-1, 1, -1, 1>>     \* result points of an 8-node shell
PtEta == <<-1, -1, 1, 1>>
NdXi  == <<-1, 0, 1, 1, 1, 0, -1, -1>>      \* its nodes, along the periphery
NdEta == <<-1, -1, -1, 0, 1, 1, 1, 0>>
WQuad(n, p) == Mul3(Lin(NdXi[n], PtXi[p]), Lin(NdEta[n], PtEta[p]))        \* over 4
\* result points of a 6-node shell have area coordinates 2/3, 1/6, 1/6;
\* nodes along the periphery: corner 1, mid 12, corner 2, ...  (area coords in halves)
NdArea == <<<<2,0,0>>, <<1,1,0>>, <<0,2,0>>, <<0,1,1>>, <<0,0,2>>, <<1,0,1>>>>
WTri(n, p) == R(3 * NdArea[n][p] - 1)           \* 2 L_p - 1/3, over 3
WNode(typ, n, p) == IF typ = 28 THEN WQuad(n, p) ELSE WTri(n, p)
DenNode(typ) == IF typ = 28 THEN 4 ELSE 3
NPts(typ) == IF typ = 28 THEN 4 ELSE 3
\* surfaces from the two layers, over 2: surf 1 lower, 2 upper
WLay(surf, lay) == IF surf = lay THEN P3 ELSE M3

\* value of component j at node n: sum over points and layers, weights wl over 2
Weights(wl(_)) ==      \* typ -> node -> point (of both layers) -> weight
  TLCEval([typ \in {26, 28} |-> [n \in 1..NNodes[typ] |-> [k \in 1..(2 * NPts(typ)) |->
     Mul3(WNode(typ, n, 1 + ((k - 1) % NPts(typ))), wl(1 + ((k - 1) \div NPts(typ))))]]])
WLower == Weights(LAMBDA l : WLay(1, l))
WUpper == Weights(LAMBDA l : WLay(2, l))
WMean == Weights(LAMBDA l : R(1))
WDiff == Weights(LAMBDA l : IF l = 2 THEN <<0, 1>> ELSE <<0, -1>>)
WShear == Weights(LAMBDA l : R(3))
AtNode(v, cpl, typ, n, j, q, w) ==
  LET wn == w[typ][n]
  IN  Sum3([k \in 1..Len(wn) |-> Scl3(Val(v, cpl, 5, k, j, q), wn[k])])

\* one element's answer in thousandths of eighths (q = 0, 1: part)
ThickGeneral(v, cpl, typ, q) ==
  Flat([n \in 1..NNodes[typ] |-> Flat([sf \in 1..2 |-> [j \in 1..5 |->
     IF j > 3 THEN 0
     ELSE Thou(AtNode(v, cpl, typ, n, j, q, IF sf = 1 THEN WLower ELSE WUpper), 2 * DenNode(typ))]])])
ThickDecomposed(v, cpl, typ, q) ==
  Flat([n \in 1..NNodes[typ] |-> [j \in 1..8 |->
     CASE j <= 3 -> \* membrane: mean of the surfaces = mean of the layers
            Thou(AtNode(v, cpl, typ, n, j, q, WMean), 2 * DenNode(typ))
       [] j \in 4..6 -> \* bending: half of upper minus lower
            Thou(AtNode(v, cpl, typ, n, j - 3, q, WDiff), 2 * DenNode(typ))
       [] j > 6 -> \* 3/2 of the mean transverse shear
            Thou(AtNode(v, cpl, typ, n, j - 3, q, WShear), 4 * DenNode(typ))]])
ThickPoints(v, cpl, typ, q) ==
  Flat([p \in 1..NPts(typ) |-> Flat([lay \in 1..2 |-> [j \in 1..5 |->
     1000 * Val(v, cpl, 5, (lay - 1) * NPts(typ) + p, j, q)]])])

ThinGeneral(v, cpl, typ, q) ==
  Flat([n \in 1..NNodes[typ] |-> Flat([sf \in 1..2 |-> [j \in 1..3 |->
     1000 * Val(v, cpl, 3, ThinPt(typ, sf, n), j, q)]])])
ThinDecomposed(v, cpl, typ, q) ==
  Flat([n \in 1..NNodes[typ] |-> [j \in 1..6 |->
     LET lo == Val(v, cpl, 3, ThinPt(typ, 1, n), 1 + ((j - 1) % 3), q)
         up == Val(v, cpl, 3, ThinPt(typ, 2, n), 1 + ((j - 1) % 3), q)
     IN  IF j <= 3 THEN 500 * (lo + up) ELSE 500 * (up - lo)]])

Beam2(v, cpl, q) == Flat([n \in 1..2 |-> [j \in 1..6 |-> 1000 * Val(v, cpl, 6, 2 * n - 1, j, q)]])
Beam3(v, cpl, q) ==      \* nodes: end, middle, end; points at -+ 1/sqrt 3
  Flat([n \in 1..3 |-> [j \in 1..6 |->
     Thou(Sum3([p \in 1..2 |-> Scl3(Val(v, cpl, 6, p, j, q), Lin(n - 2, 2 * p - 3))]), 2)]])
Beam3Points(v, cpl, q) == Flat([p \in 1..2 |-> [j \in 1..6 |-> 1000 * Val(v, cpl, 6, p, j, q)]])

\* restype, pos -> values of one element (part q)
ElemValues(v, cpl, typ, restype, pos, q) ==
  CASE typ = 15 -> Beam2(v, cpl, q)
    [] typ = 23 -> IF pos = "nodes" THEN Beam3(v, cpl, q) ELSE Beam3Points(v, cpl, q)
    [] typ \in {24, 25} -> IF restype = "generalstress" THEN ThinGeneral(v, cpl, typ, q)
                           ELSE ThinDecomposed(v, cpl, typ, q)
    [] typ \in {26, 28} -> IF pos = "respts" THEN ThickPoints(v, cpl, typ, q)
                           ELSE IF restype = "generalstress" THEN ThickGeneral(v, cpl, typ, q)
                           ELSE ThickDecomposed(v, cpl, typ, q)

ReIm(re, im) == [k \in 1..(2 * Len(re)) |-> IF k % 2 = 1 THEN re[(k + 1) \div 2] ELSE im[k \div 2]]

\* answer in thousandths (of an eighth)
GetElementResults(d, a) ==
  LET ds == d.c
      beam == a.restype = "beamforce"
      tab == IF beam THEN "RVFORCES" ELSE "RVSTRESS"
      arr == IF beam THEN "force" ELSE "stress"
      kind == IF beam THEN "beam" ELSE "shell"
      cs == TLCEval(Cases(ds, a))
  IN  IF a.restype \notin {"beamforce", "generalstress", "decomposedstress"} THEN <<AnyErr>>
      ELSE IF ~Has(ds, tab) \/ ~Selectable(ds, a.sets, kind) THEN <<AnyErr>>
      ELSE IF ~Answerable(cs) THEN <<ErrOf(cs)>>
      ELSE IF Selected(ds, a.sets, kind) = <<>> THEN <<Nothing>>
      ELSE LET es == TLCEval(Selected(ds, a.sets, kind))
               cpl == IsCpx(cs)
               thin == \E i \in 1..Len(es) : ElTyp(ds, es[i]) \in {24, 25}
               \* stored values, case by case, element by element
               vals == TLCEval([k \in 1..Len(cs) |-> [i \in 1..Len(es) |->
                                  ResRow(ds[tab], "iielno", cs[k], es[i]).a[arr]]])
               part(q) == Flat([k \in 1..Len(cs) |-> Flat([i \in 1..Len(es) |->
                            ElemValues(vals[k][i], cpl,
                                       ElTyp(ds, es[i]), a.restype, a.pos, q)])])
               npos == SumSeq([i \in 1..Len(es) |->
                          LET typ == ElTyp(ds, es[i])
                          IN  IF a.pos = "nodes" \/ typ \in {15, 24, 25} THEN NNodes[typ]
                              ELSE IF typ = 23 THEN 2 ELSE NPts(typ)])
               tail == IF beam THEN <<6>>
                       ELSE IF a.restype = "generalstress" THEN <<2, IF thin THEN 3 ELSE 5>>
                       ELSE IF thin THEN <<6>>
                       ELSE IF a.pos = "respts" THEN <<2, 5>> ELSE <<8>>
               shape == LeadShape(cs, <<npos>> \o tail)
           IN  <<IF cpl THEN ApxC(shape, ReIm(part(0), part(1))) ELSE Apx(shape, part(0))>>

GetTransformation(d, a) ==
  LET r == Transformation(d.c, a.seltyp, a.index, IF a.trans.m = "top" THEN TopName ELSE a.trans.v[1])
  IN  IF ~Has(d.c, "HIERARCH") \/ ~Has(d.c, "HSUPTRAN") \/ ~r.ok THEN <<AnyErr>>
      ELSE <<Num(<<4, 4>>, r.t)>>

StrucAnswer(d, fn, a) ==
  CASE fn = "get_nodes" -> GetNodes(d, a)
    [] fn = "get_nodenumbers" -> GetNodeNumbers(d, a)
    [] fn = "get_elements" -> GetElements(d, a)
    [] fn = "get_elementnumbers" -> GetElementNumbers(d, a)
    [] fn = "get_noderesults" -> GetNodeResults(d, a)
    [] fn = "get_elementresults" -> GetElementResults(d, a)
    [] fn = "get_section_properties" -> GetSections(d, a)
    [] fn = "get_shell_thicknesses" -> GetThicknesses(d, a)
    [] fn = "get_setnames" -> GetSetNames(d, a)
    [] fn = "get_resultcase_names" -> GetResultCaseNames(d, a)
    [] fn = "get_transformation" -> GetTransformation(d, a)
==============================================================================
