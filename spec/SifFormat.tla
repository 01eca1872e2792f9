------------------------------ MODULE SifFormat ------------------------------
(***************************************************************************)
(* The logical content of a SESAM interface file and what of it a          *)
(* conversion stores.                                                      *)
(*                                                                         *)
(* A file is a sequence of logical records [n |-> name, v |-> values,      *)
(* t |-> text lines].  All numbers are integers counting EIGHTHS of the    *)
(* value on the file, so that reals with three binary decimals and         *)
(* integers have one exact representation.  Numbers of real-world files    *)
(* that are not multiples of 1/8 are carried as opaque tokens (large       *)
(* integers); the specification never computes with those.                 *)
(*                                                                         *)
(* Decode(recs, only) is the whole conversion of one file: a function from *)
(* table names to sequences of rows.  A row is                             *)
(*   [c |-> column  |-> tuple of numbers (complex: re, im, re, im ...),    *)
(*    a |-> array   |-> tuple of numbers (the variable-length parts),      *)
(*    x |-> name    |-> tuple of strings (texts)]                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions, TLC

At(v, i) == IF i <= Len(v) THEN v[i] ELSE 0          \* absent fields are zero
I(x) == IF x >= 0 THEN x \div 8 ELSE -((-x) \div 8)  \* the integer value
Part(v, from, n) == TLCEval([k \in 1..n |-> At(v, from + k - 1)])
Tail4(v, n) == Part(v, 4, n)
Emp == [z \in {} |-> <<>>]

(***************************************************************************)
(* Records made of single-value columns only.                              *)
(***************************************************************************)
Plain ==
  [IDENT   |-> <<"slevel","seltyp","selmod">>,
   GNODE   |-> <<"nodex","nodeno","ndof","odof">>,
   GCOORD  |-> <<"nodeno","xcoord","ycoord","zcoord">>,
   GECCEN  |-> <<"eccno","ex","ey","ez">>,
   GUNIVEC |-> <<"transno","unix","uniy","uniz">>,
   GELTH   |-> <<"geono","th","nint">>,
   GBEAMG  |-> <<"geono","void","area","ix","iy","iz","iyz","wxmin","wymin","wzmin",
                 "shary","sharz","shceny","shcenz","sy","sz">>,
   GBARM   |-> <<"geono","hz","bt","bb","sfy","sfz","nloby","nlobz">>,
   GBOX    |-> <<"geono","hz","ty","t_b","tt","by","sfy","sfz","nloby","nlobz">>,
   GCHAN   |-> <<"geono","hz","ty","by","tz","sfy","sfz","empty","k","nloby","nlobz">>,
   GCHANR  |-> <<"geono","hz","ty","by","tz","sfy","sfz","empty","k","r","nloby","nlobz">>,
   GDOBO   |-> <<"geono","hz","ty","by","tt","t_b","sfy","sfz","nloby","nlobz">>,
   GIORH   |-> <<"geono","hz","ty","bt","tt","bb","t_b","sfy","sfz","nlobyt","nlobyb","nlobz">>,
   GIORHR  |-> <<"geono","hz","ty","bt","tt","bb","t_b","sfy","sfz","rt","rb",
                 "nlobyt","nlobyb","nlobz">>,
   GLSEC   |-> <<"geono","hz","ty","by","tz","sfy","sfz","k","nloby","nlobz">>,
   GLSECR  |-> <<"geono","hz","ty","by","tz","sfy","sfz","k","r","nloby","nlobz">>,
   GPIPE   |-> <<"geono","di","dy","t","sfy","sfz","ncir","nrad">>,
   GUSYI   |-> <<"geono","hz","ty","bt","b1","tt","bb","b2","t_b","sfy","sfz",
                 "nlobyt","nlobyb","nlobz">>,
   MISOSEL |-> <<"matno","young","poiss","rho","damp","alpha">>,
   BGRAV   |-> <<"llc","empty1","empty2","opt","gx","gy","gz">>,
   BRIGAC  |-> <<"llc","empty1","complx","empty2","xcoord","ycoord","zcoord","empty3",
                 "raccl1","raccl2","raccl3","raccl4","raccl5","raccl6",
                 "iaccl1","iaccl2","iaccl3","iaccl4","iaccl5","iaccl6">>]

(***************************************************************************)
(* Records with fixed columns of several values: <<column, width>>.        *)
(***************************************************************************)
W1(names) == [k \in 1..Len(names) |-> <<names[k], 1>>]
Wide ==
  [RSUPTRAN |-> <<<<"nfield",1>>,<<"itref",1>>,<<"t",16>>>>,
   HSUPTRAN |-> <<<<"nfield",1>>,<<"itref",1>>,<<"t",16>>>>,
   WBODY    |-> W1(<<"nfield","ibcond","clenb","bmass","wsarea","wparea","vol","xcg","ycg",
                     "zcg","xcb","ycb","zcb","xrb","yrb","zrb">>) \o <<<<"t",16>>>>,
   W1MATRIX |-> W1(<<"nfield","imatrx","ibconi","ibconj","iwres","imtyp">>) \o <<<<"hmat",36>>>>,
   W2HDRIFT |-> <<<<"nfield",1>>,<<"ibcond",1>>,<<"iwres",1>>,<<"shfor",3>>>>,
   W2MDRIFT |-> <<<<"nfield",1>>,<<"ibcond",1>>,<<"iwres",1>>,<<"smfor",6>>>>,
   WFKPOINT |-> <<<<"nfield",1>>,<<"ifkpnt",1>>,<<"fkpnt",3>>>>,
   WSECTION |-> W1(<<"nfield","ibody","isect","isecty","secusr">>)
                  \o <<<<"p1",3>>,<<"p2",3>>,<<"p3",3>>>>,
   WINPUT   |-> <<<<"nfield",1>>,<<"ibcond",1>>,<<"t",16>>>>]

(***************************************************************************)
(* Fixed part of the records that also have a variable part.               *)
(***************************************************************************)
Fixed ==
  [HIERARCH |-> <<"nfield","ihref","iselty","indsel","islevl","itref","ihpref","nsub">>,
   GELMNT1  |-> <<"elnox","elno","eltyp","eltyad">>,
   GELREF1  |-> <<"elno","matno","addno","intno","mintno","strano","streno","strepono",
                  "geono","fixno","eccno","transno">>,
   GSETMEMB |-> <<"nfield","isref","index","istype","isorig">>,
   SCONMESH |-> <<"nfield","ircon","numrep","typrep","nferep">>,
   BNBCD    |-> <<"nodeno","ndof">>,
   BLDEP    |-> <<"nodeno","cnod","ndof","ndep">>,
   BEUSLO   |-> <<"llc","lotyp","complx","layer","elno","ndof","intno","side">>,
   RDFORCES |-> <<"nfield","ir","lenrec">>,
   RDNODRES |-> <<"nfield","ir","lenrec">>,
   RDSTRAIN |-> <<"nfield","ir","lenrec">>,
   RDSTRESS |-> <<"nfield","ir","lenrec">>,
   RDELNFOR |-> <<"nfield","ir","lenrec">>,
   RDPOINTS |-> <<"nfield","ispalt","iielno","icoref","ieltyp","nsp","ijkdim","nsptra","nlay">>,
   RDIELCOR |-> <<"nfield","icoref","igrid">>,
   RDRESREF |-> <<"nfield","ires","irno","ieres","icalty","icompl","numtyp">>,
   RBLODCMB |-> <<"nfield","ires","icompl","nblc">>,
   RDRESCMB |-> <<"nfield","ires","icompl","nblc">>,
   RVNODACC |-> <<"nfield","ires","iinod","irdva","itrans">>,
   RVNODDIS |-> <<"nfield","ires","iinod","irdva","itrans">>,
   RVNODVEL |-> <<"nfield","ires","iinod","irdva","itrans">>,
   RVFORCES |-> <<"nfield","ires","iielno","ispalt","ir">>,
   RVSTRAIN |-> <<"nfield","ires","iielno","ispalt","ir">>,
   RVSTRESS |-> <<"nfield","ires","iielno","ispalt","ir">>,
   WBODCON  |-> <<"nfield","ibcond","ibody","numcon">>,
   WDRESREF |-> <<"nfield","iwres","nresrf","numtyp">>,
   WSURFACE |-> <<"nfield","iwres","indxwr","nnode","icompl","icompx","icompy","icompz">>]

TextNames == {"DATE", "TEXT"}
TdNames == {"TDMATER","TDSECT","TDSETNAM","TDSUPNAM","TSLAYER","TDSCONC","TDLOAD","TDRESREF",
            "TDBODNAM","TDRSNAM"}
OtherNames == {"GELMNT2", "SCONCEPT", "WGLOBDEF", "W1EXFORC", "W1MOTION", "W2EXFDIF",
               "W2EXFSUM", "W1SFORCE", "WFLUIDKN", "W1PANPRE"}

Supported == DOMAIN Plain \union DOMAIN Wide \union DOMAIN Fixed \union TextNames
               \union TdNames \union OtherNames

\* Number of nodes of the element types that can be stored.
NNodes == (15 :> 2) @@ (16 :> 2) @@ (18 :> 1) @@ (23 :> 3) @@ (24 :> 4) @@ (25 :> 3)
            @@ (26 :> 6) @@ (28 :> 8)

(***************************************************************************)
(* What some records need to know about other records of the same file.    *)
(***************************************************************************)
Sel(recs, name) == SelectSeq(recs, LAMBDA r : r.n = name /\ r.v[1] >= 0)
\* key(r) |-> val(r), the last one wins
MapOf(rs, key(_), val(_)) ==
  LET ks == {key(rs[i]) : i \in 1..Len(rs)}
  IN  [k \in ks |-> val(rs[Max({i \in 1..Len(rs) : key(rs[i]) = k})])]

Grid(v) == [nlay |-> I(v[9]), nok |-> I(v[7]) \div 10000, noj |-> (I(v[7]) % 10000) \div 100,
            noi |-> I(v[7]) % 100]
\* when a coordinate definition comes without result point definition
DefaultGrid(icoref) == IF icoref = 15 THEN [nlay |-> 0, nok |-> 1, noj |-> 1, noi |-> 3]
                       ELSE [nlay |-> 0, nok |-> 2, noj |-> 3, noi |-> 3]

Context(recs) ==
  [eltyp  |-> MapOf(Sel(recs, "GELMNT1"), LAMBDA r : I(r.v[2]), LAMBDA r : I(r.v[3])),
   nsp    |-> MapOf(Sel(recs, "RDPOINTS"), LAMBDA r : <<I(r.v[2]), I(r.v[3])>>, LAMBDA r : I(r.v[6])),
   grid   |-> MapOf(Sel(recs, "RDPOINTS"), LAMBDA r : I(r.v[4]), LAMBDA r : Grid(r.v)),
   icompl |-> MapOf(Sel(recs, "RDRESREF"), LAMBDA r : I(r.v[2]), LAMBDA r : I(r.v[6])),
   lenrec |-> [n \in {"RVFORCES", "RVSTRAIN", "RVSTRESS"} |->
                 LET d == (("RVFORCES" :> "RDFORCES") @@ ("RVSTRAIN" :> "RDSTRAIN")
                           @@ ("RVSTRESS" :> "RDSTRESS"))[n]
                 IN  MapOf(Sel(recs, d), LAMBDA r : I(r.v[2]), LAMBDA r : I(r.v[3]))]]

(***************************************************************************)
(* Helpers for the variable parts.                                         *)
(***************************************************************************)
\* consecutive parts of v from position p: parts = <<<<name, count>>, ...>>
RECURSIVE Consec(_, _, _)
Consec(v, p, parts) ==
  IF parts = <<>> THEN Emp
  ELSE (parts[1][1] :> Part(v, p, parts[1][2]))
         @@ Consec(v, p + parts[1][2], Tail(parts))

\* the grid of result points: a point number > 0 is followed by its coordinates
RECURSIVE GridPoints(_, _, _)
GridPoints(v, p, n) ==
  IF n = 0 THEN [next |-> p, pts |-> <<>>]
  ELSE IF At(v, p) > 0
       THEN LET r == GridPoints(v, p + 4, n - 1)
            IN  [next |-> r.next, pts |-> Part(v, p, 4) \o r.pts]
       ELSE GridPoints(v, p + 1, n - 1)

\* real values get a zero imaginary part
WithIm(vals) == [k \in 1..(2 * Len(vals)) |-> IF k % 2 = 1 THEN vals[(k + 1) \div 2] ELSE 0]
Complex(v, p, n, cpl) == IF cpl # 0 THEN Part(v, p, 2 * n) ELSE WithIm(Part(v, p, n))

\* surface elevations: node, then up to three (complex) components
RECURSIVE Surf(_, _, _, _)
Surf(v, p, comps, cpl) ==       \* one node: comps = the three component flags
  IF comps = <<>> THEN <<>>
  ELSE IF comps[1] = 0 THEN <<0, 0>> \o Surf(v, p, Tail(comps), cpl)
  ELSE IF cpl # 0 THEN Part(v, p, 2) \o Surf(v, p + 2, Tail(comps), cpl)
  ELSE <<At(v, p), 0>> \o Surf(v, p + 1, Tail(comps), cpl)

SurfArr(v) ==
  LET comps == <<v[6], v[7], v[8]>>
      nper == 1 + (I(v[6]) + I(v[7]) + I(v[8])) * (1 + I(v[5]))
      n == (I(v[1]) - 8) \div nper
  IN  FlattenSeq([k \in 1..n |->
        LET p == 9 + (k - 1) * nper
        IN  <<At(v, p), 0>> \o Surf(v, p + 1, comps, v[5])])

\* reference values of a hydrodynamic result reference, by reference type
RefType(v, typ) ==
  LET nres == I(v[3])
      len == 1 + 2 * nres
      hits == {k \in 1..I(v[4]) : I(At(v, 5 + (k - 1) * len)) = typ}
  IN  IF hits = {} THEN <<>> ELSE Part(v, 6 + (Max(hits) - 1) * len, 2 * nres)

(***************************************************************************)
(* The row of one record.                                                  *)
(***************************************************************************)
Cols(names, v) == [k \in ToSet(names) |->
                     <<At(v, CHOOSE i \in 1..Len(names) : names[i] = k)>>]
RECURSIVE WidthBefore(_, _)
WidthBefore(l, i) == IF i = 1 THEN 0 ELSE l[i - 1][2] + WidthBefore(l, i - 1)
WCols(l, v) == [k \in {l[i][1] : i \in 1..Len(l)} |->
                  LET i == CHOOSE j \in 1..Len(l) : l[j][1] = k
                  IN  Part(v, 1 + WidthBefore(l, i), l[i][2])]

Row(c, a, x) == [c |-> TLCEval(c), a |-> TLCEval(a), x |-> TLCEval(x)]

\* the variable part of record r of a type in Fixed
VarPart(n, v, ctx) ==
  CASE n = "HIERARCH" -> Consec(v, 9, <<<<"ihsref", I(v[8])>>>>)
    [] n = "GELMNT1"  -> Consec(v, 5, <<<<"nodin", NNodes[I(v[3])]>>>>)
    [] n = "GELREF1"  ->
         LET nn == NNodes[ctx.eltyp[I(v[1])]]
             cnt(i) == IF v[i] = -8 THEN nn ELSE 0
         IN  Consec(v, 13, <<<<"geono", cnt(9)>>, <<"fixno", cnt(10)>>, <<"eccno", cnt(11)>>,
                             <<"transno", cnt(12)>>>>)
    [] n = "GSETMEMB" -> Consec(v, 6, <<<<"irmemb", I(v[1]) - 5>>>>)
    [] n = "SCONMESH" -> Consec(v, 6, <<<<"irferep", I(v[5])>>>>)
    [] n = "BNBCD"    -> Consec(v, 3, <<<<"fix", I(v[2])>>>>)
    [] n = "BLDEP"    -> [z \in {"deps"} |->
                            FlattenSeq([k \in 1..I(v[4]) |-> Part(v, 5 + 4 * (k - 1), 3)])]
    [] n = "BEUSLO"   -> Consec(v, 9, <<<<"rload", I(v[6])>>,
                                        <<"iload", IF v[3] # 0 THEN I(v[6]) ELSE 0>>>>)
    [] n \in {"RDFORCES","RDNODRES","RDSTRAIN","RDSTRESS","RDELNFOR"}
                      -> Consec(v, 4, <<<<"icomp", I(v[3])>>>>)
    [] n = "RDPOINTS" ->
         LET g == Grid(v)
             gp == GridPoints(v, 10, g.nok * g.noj * g.noi)
         IN  ("respoint" :> gp.pts) @@ ("xform" :> Part(v, gp.next, 9 * I(v[8])))
    [] n = "RDIELCOR" ->
         LET ic == I(v[2])
             g == IF ic \in DOMAIN ctx.grid THEN ctx.grid[ic] ELSE DefaultGrid(ic)
         IN  Consec(v, 4, <<<<"gamma", g.nok>>, <<"beta", g.noj>>, <<"alpha", g.noi>>,
                            <<"layers", 2 * g.nlay>>>>)
    [] n = "RDRESREF" -> Consec(v, 8, <<<<"reftyps", 3 * I(v[7])>>>>)
    [] n = "RBLODCMB" -> Consec(v, 5, <<<<"blcs", 3 * I(v[4])>>>>)
    [] n = "RDRESCMB" -> Consec(v, 5, <<<<"rcs", 3 * I(v[4])>>>>)
    [] n = "RVNODACC" -> Consec(v, 6, <<<<"acc", I(v[1]) - 5>>>>)
    [] n = "RVNODDIS" -> Consec(v, 6, <<<<"dis", I(v[1]) - 5>>>>)
    [] n = "RVNODVEL" -> Consec(v, 6, <<<<"vel", I(v[1]) - 5>>>>)
    [] n \in {"RVFORCES","RVSTRAIN","RVSTRESS"} ->
         LET arr == (("RVFORCES" :> "force") @@ ("RVSTRAIN" :> "strain")
                     @@ ("RVSTRESS" :> "stress"))[n]
             cnt == ctx.nsp[<<I(v[4]), I(v[3])>>] * ctx.lenrec[n][I(v[5])]
                      * (1 + ctx.icompl[I(v[2])])
         IN  Consec(v, 6, <<<<arr, cnt>>>>)
    [] n = "WBODCON"  -> Consec(v, 5, <<<<"refcond", 3 * I(v[4])>>>>)
    [] n = "WDRESREF" -> ("dir" :> RefType(v, 1)) @@ ("freq" :> RefType(v, 2))
                           @@ ("time" :> RefType(v, 3))
    [] n = "WSURFACE" -> [z \in {"zelev"} |-> SurfArr(v)]

\* parts of a TD record: the name may be spread over several lines
TdName(r) == LET k == I(r.v[3]) \div 100
             IN  FoldLeft(LAMBDA acc, s : acc \o s, "", SubSeq(r.t, 1, k))
TdText(r) == LET k == I(r.v[3]) \div 100
             IN  SubSeq(r.t, k + 1, k + I(r.v[4]) \div 100)

RowOf(r, ctx) ==
  LET n == r.n  v == r.v
  IN CASE n \in DOMAIN Plain -> Row(Cols(Plain[n], v), Emp, Emp)
       [] n \in DOMAIN Wide  -> Row(WCols(Wide[n], v), Emp, Emp)
       [] n \in DOMAIN Fixed -> Row(Cols(Fixed[n], v), VarPart(n, v, ctx), Emp)
       [] n \in TextNames    -> Row(Cols(<<"type","subtype","nrecs","nbyte">>, v), Emp,
                                    [z \in {"recs"} |-> r.t])
       [] n \in TdNames      -> Row(Cols(<<"nfield","idno","codnam","codtxt">>, v), Emp,
                                    ("name" :> <<TdName(r)>>) @@ ("text" :> TdText(r)))
       [] n = "GELMNT2"  -> Row(WCols(W1(<<"subno","slevel","stype","addno">>)
                                        \o <<<<"t",12>>,<<"nnod",1>>>>, v),
                                Consec(v, 18, <<<<"nod", I(At(v, 17))>>>>), Emp)
       [] n = "SCONCEPT" ->          \* 7: segmented beam, 2: segment
            LET seg == I(v[3]) = 7
                u == IF seg THEN v ELSE SubSeq(v, 1, 5)
            IN  Row(Cols(<<"nfield","ircon","scontype","sconrole","irparent","npart","njoin">>, u),
                    Consec(u, 8, <<<<"irpart", I(At(u, 6))>>, <<"irjoin", I(At(u, 7))>>>>), Emp)
       [] n = "WGLOBDEF" -> Row(IF v[4] # 0
                                THEN Cols(<<"nfield","g","ro","idepth","depth">>, v)
                                ELSE Cols(<<"nfield","g","ro","idepth">>, v), Emp, Emp)
       [] n \in {"W1EXFORC","W1MOTION","W2EXFDIF","W2EXFSUM"}
                         -> Row(("data" :> Complex(v, 5, 6, v[4]))
                                  @@ Cols(<<"nfield","ibcond","iwres","icompl">>, v), Emp, Emp)
       [] n = "W1SFORCE" -> Row(("data" :> Complex(v, 6, 6, v[5]))
                                  @@ Cols(<<"nfield","ibcond","isect","iwres","icompl">>, v), Emp, Emp)
       [] n = "WFLUIDKN" -> LET q == IF v[4] # 0 THEN 7 ELSE 6
                            IN  Row(("p" :> Complex(v, 5, 1, v[4])) @@ ("v" :> Complex(v, q, 3, v[4]))
                                      @@ Cols(<<"nfield","iwres","ifkpnt","icompl">>, v), Emp, Emp)
       [] n = "W1PANPRE" -> LET q == IF At(v, 6) # 0 THEN 9 ELSE 8
                            IN  Row(("p" :> Complex(v, 7, 1, At(v, 6)))
                                      @@ ("ipan" :> <<At(v, q)>>) @@ ("isymm2" :> <<At(v, q + 1)>>)
                                      @@ Cols(<<"nfield","ibcond","iwres","ippan","isymm1","icompl">>, v),
                                    Emp, Emp)

(***************************************************************************)
(* The conversion of a file.                                               *)
(***************************************************************************)
\* records that are stored: supported, not an index record, wanted
Wanted(recs, only) ==
  SelectSeq(recs, LAMBDA r : r.n \in Supported /\ r.v[1] >= 0
                               /\ (only = {} \/ r.n \in only))

\* record types that cannot be represented make the conversion fail
Refused(r) == \/ r.n = "SCONCEPT" /\ I(r.v[3]) \notin {2, 7}
              \/ r.n = "SCONMESH" /\ I(r.v[3]) > 1
              \/ r.n = "GELMNT1" /\ I(r.v[3]) \notin DOMAIN NNodes

Convertible(recs, only) == \A i \in 1..Len(Wanted(recs, only)) : ~Refused(Wanted(recs, only)[i])

Decode(recs, only) ==
  LET w == Wanted(recs, only)
      ctx == Context(w)
      names == {w[i].n : i \in 1..Len(w)}
  IN  TLCEval([n \in names |->
         LET rs == SelectSeq(w, LAMBDA r : r.n = n)
         IN  TLCEval([i \in 1..Len(rs) |-> RowOf(rs[i], ctx)])])

(***************************************************************************)
(* Comparison of an observed table content with the decoded one: the set   *)
(* of clauses that fail (empty iff equal).  Observed tables have the form  *)
(*   [n |-> rows, c |-> [column |-> <<per row: numbers>>],                 *)
(*    a |-> [array |-> <<per row: numbers>>],                              *)
(*    x |-> [text  |-> <<per row: strings>>],  len |-> [array |-> total]]  *)
(***************************************************************************)
FirstBad(n, ok(_)) == Min({i \in 1..n : ~ok(i)})
TableDiff(name, rows, ob) ==
  IF ob.n # Len(rows) THEN {name \o ": " \o ToString(ob.n) \o " rows stored, "
                              \o ToString(Len(rows)) \o " on the file"}
  ELSE IF rows = <<>> THEN {}
  ELSE LET part(kind, exp(_, _), have, key) ==
             IF key \notin DOMAIN have THEN {name \o "." \o key \o ": missing"}
             ELSE IF \A i \in 1..ob.n : have[key][i] = exp(i, key) THEN {}
             ELSE LET b == FirstBad(ob.n, LAMBDA i : have[key][i] = exp(i, key))
                  IN  {name \o "." \o key \o " row " \o ToString(b) \o ": stored "
                         \o ToString(have[key][b]) \o ", on file " \o ToString(exp(b, key))}
           cols == UNION {DOMAIN rows[i].c : i \in 1..Len(rows)}
           total(key) == FoldLeft(LAMBDA s, r : s + Len(r.a[key]), 0, rows)
       IN  UNION {part("c", LAMBDA i, q : IF q \in DOMAIN rows[i].c THEN rows[i].c[q]
                                          ELSE ob.c[q][i], ob.c, k) : k \in cols}
             \union UNION {part("a", LAMBDA i, q : rows[i].a[q], ob.a, k) : k \in DOMAIN rows[1].a}
             \union UNION {part("x", LAMBDA i, q : rows[i].x[q], ob.x, k) : k \in DOMAIN rows[1].x}
             \union {name \o "." \o k \o ": " \o ToString(ob.len[k]) \o " values stored in total, "
                       \o ToString(total(k)) \o " on the file"
                      : k \in {q \in DOMAIN rows[1].a \intersect DOMAIN ob.len : ob.len[q] # total(q)}}

\* tables in restricted to the names in rel (all if rel = {})
ContentDiff(content, tabs) ==
  {"table " \o n \o ": not stored" : n \in DOMAIN content \ DOMAIN tabs}
    \union {"table " \o n \o ": rows that are not on the file"
              : n \in {m \in DOMAIN tabs \ DOMAIN content : tabs[m].n > 0}}
    \union UNION {TableDiff(n, content[n], tabs[n]) : n \in DOMAIN content \intersect DOMAIN tabs}
==============================================================================
