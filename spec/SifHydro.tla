------------------------------ MODULE SifHydro ------------------------------
(***************************************************************************)
(* What the queries of a hydrodynamic dataset return.                      *)
(***************************************************************************)
EXTENDS SifStruc

\* all values of one reference type, in file order (the second of every pair)
RefVals(ds, typ) == Flat([i \in 1..Len(ds["WDRESREF"]) |->
                            LET q == ds["WDRESREF"][i].a[typ]
                            IN  [k \in 1..(Len(q) \div 2) |-> q[2 * k]]])
\* distinct values in order of first appearance
Firsts(q) == LET idx == Asc({i \in 1..Len(q) : \A j \in 1..(i - 1) : q[j] # q[i]})
             IN  [k \in 1..Len(idx) |-> q[idx[k]]]
Dirs(ds)  == Firsts(RefVals(ds, "dir"))
Freqs(ds) == Firsts(RefVals(ds, "freq"))
Times(ds) == Asc(ToSet(RefVals(ds, "time")))
IsFreq(ds) == Freqs(ds) # <<>>

\* the condition number of a body
BodyRows(ds, b) == RowsWhere(ds, "WBODCON", LAMBDA r : FI(r, "ibody") = b)
KnownBody(ds, b) == BodyRows(ds, b) # <<>>
Cond(ds, b) == F(BodyRows(ds, b)[1], "ibcond")

\* the references of every direction and frequency
Refs(ds) ==
  LET W == ds["WDRESREF"]  D == Dirs(ds)  Q == Freqs(ds)
  IN  TLCEval([di \in 1..Len(D) |-> TLCEval([fi \in 1..Len(Q) |->
        TLCEval({F(W[i], "iwres") : i \in {j \in 1..Len(W) :
             /\ Len(W[j].a["dir"]) >= 2 /\ W[j].a["dir"][2] = D[di]
             /\ Len(W[j].a["freq"]) >= 2 /\ W[j].a["freq"][2] = Q[fi]}})])])

\* the rows of every (direction, frequency) pair, as numbers
Cells(ds, rows) ==
  LET rf == Refs(ds)
      w == TLCEval([k \in 1..Len(rows) |-> F(rows[k], "iwres")])
  IN  TLCEval([di \in DOMAIN rf |-> TLCEval([fi \in DOMAIN rf[di] |->
        TLCEval({k \in 1..Len(rows) : w[k] \in rf[di][fi]})])])
\* entry of a table in a cell
Entry(rows, cell, ok(_)) == rows[CHOOSE k \in cell : ok(rows[k])]

\* array [outer index][component][direction][frequency] of w-number values
Grid4(n1, n2, nd, nf, val(_, _, _, _)) ==
  Flat([a \in 1..n1 |-> Flat([b \in 1..n2 |-> Flat([di \in 1..nd |-> Flat([fi \in 1..nf |->
          val(a, b, di, fi)])])])])

Resp(ds, a, tab, col, ncomp, cpl) ==      \* (component, direction, frequency)
  IF ~IsFreq(ds) THEN <<Err(<<"ResultError">>)>>
  ELSE IF ~Has(ds, tab) \/ ~KnownBody(ds, a.body) THEN <<AnyErr>>
  ELSE LET c == Cond(ds, a.body)
           rows == RowsWhere(ds, tab, LAMBDA r : F(r, "ibcond") = c)
           nd == Len(Dirs(ds))  nf == Len(Freqs(ds))
           C == Cells(ds, rows)
           val(x, b, di, fi) == LET v == Entry(rows, C[di][fi], LAMBDA r : TRUE).c[col]
                                IN  IF cpl THEN <<v[2 * b - 1], v[2 * b]>> ELSE <<v[b]>>
           d == Grid4(1, ncomp, nd, nf, val)
           s == <<ncomp, nd, nf>>
       IN  IF rows = <<>> THEN <<AnyErr>>
           ELSE <<IF cpl THEN Cpx(s, d) ELSE Num(s, d)>>

SectionForces(ds, a) ==                   \* (section, component, direction, frequency)
  IF ~IsFreq(ds) THEN <<Err(<<"ResultError">>)>>
  ELSE IF ~Has(ds, "W1SFORCE") \/ ~KnownBody(ds, a.body) THEN <<AnyErr>>
  ELSE LET c == Cond(ds, a.body)
           rows == RowsWhere(ds, "W1SFORCE", LAMBDA r : F(r, "ibcond") = c)
           secs == Asc({F(rows[i], "isect") : i \in 1..Len(rows)})
           nd == Len(Dirs(ds))  nf == Len(Freqs(ds))
           C == Cells(ds, rows)
           val(x, b, di, fi) ==
             LET v == Entry(rows, C[di][fi], LAMBDA r : F(r, "isect") = secs[x]).c["data"]
             IN  <<v[2 * b - 1], v[2 * b]>>
       IN  IF rows = <<>> THEN <<AnyErr>>
           ELSE <<Cpx(<<Len(secs), 6, nd, nf>>, Grid4(Len(secs), 6, nd, nf, val))>>

FluidKin(ds, a) ==                        \* (point[, component], direction, frequency)
  IF ~IsFreq(ds) THEN <<Err(<<"ResultError">>)>>
  ELSE IF ~Has(ds, "WFLUIDKN") \/ a.what \notin {"elevation", "pressure", "velocity"} THEN <<AnyErr>>
  ELSE LET rows == ds["WFLUIDKN"]
           pts == [i \in 1..Len(ds["WFKPOINT"]) |-> F(ds["WFKPOINT"][i], "ifkpnt")]
           nd == Len(Dirs(ds))  nf == Len(Freqs(ds))
           C == Cells(ds, rows)
           ent(x, di, fi) == Entry(rows, C[di][fi], LAMBDA r : F(r, "ifkpnt") = pts[x])
           g == ds["WGLOBDEF"][1]
           gro == (F(g, "g") * F(g, "ro")) \div 64
           p(x, b, di, fi) == ent(x, di, fi).c["p"]
           e(x, b, di, fi) == [k \in 1..2 |-> (ent(x, di, fi).c["p"][k] * 1000) \div gro]
           v(x, b, di, fi) == LET q == ent(x, di, fi).c["v"] IN <<q[2 * b - 1], q[2 * b]>>
           np == Len(pts)
       IN  CASE a.what = "pressure"  -> <<Cpx(<<np, nd, nf>>, Grid4(np, 1, nd, nf, p))>>
             [] a.what = "elevation" -> <<ApxC(<<np, nd, nf>>, Grid4(np, 1, nd, nf, e))>>
             [] a.what = "velocity"  -> <<Cpx(<<np, 3, nd, nf>>, Grid4(np, 3, nd, nf, v))>>

PanRows(ds, a) == LET c == Cond(ds, a.body)
                  IN  RowsWhere(ds, "W1PANPRE", LAMBDA r : F(r, "ibcond") = c)
PanelIds(ds, a) ==                        \* symmetry part by symmetry part
  IF ~IsFreq(ds) THEN <<Err(<<"ResultError">>)>>
  ELSE IF ~Has(ds, "W1PANPRE") THEN <<None>>
  ELSE IF ~KnownBody(ds, a.body) THEN <<AnyErr>>
  ELSE IF PanRows(ds, a) = <<>> THEN <<None>>
  ELSE LET rows == PanRows(ds, a)
           ps == Asc({F(rows[i], "ipan") : i \in 1..Len(rows)})
           ss == Asc({F(rows[i], "isymm1") : i \in 1..Len(rows)})
       IN  <<Num(<<Len(ss) * Len(ps), 2>>,
                 Flat([s \in 1..Len(ss) |-> Flat([p \in 1..Len(ps) |-> <<ps[p], ss[s]>>])]))>>
PanelPressures(ds, a) ==                  \* (panel, symmetry part, direction, frequency)
  IF ~IsFreq(ds) THEN <<Err(<<"ResultError">>)>>
  ELSE IF ~Has(ds, "W1PANPRE") THEN <<None>>
  ELSE IF ~KnownBody(ds, a.body) THEN <<AnyErr>>
  ELSE IF PanRows(ds, a) = <<>> THEN <<None>>
  ELSE LET rows == PanRows(ds, a)
           ps == Asc({F(rows[i], "ipan") : i \in 1..Len(rows)})
           ss == Asc({F(rows[i], "isymm1") : i \in 1..Len(rows)})
           nd == Len(Dirs(ds))  nf == Len(Freqs(ds))
           C == Cells(ds, rows)
           val(p, s, di, fi) == Entry(rows, C[di][fi], LAMBDA r :
                                   F(r, "ipan") = ps[p] /\ F(r, "isymm1") = ss[s]).c["p"]
       IN  <<Cpx(<<Len(ps), Len(ss), nd, nf>>, Grid4(Len(ps), Len(ss), nd, nf, val))>>

\* frequency-dependent matrices have one record per frequency
Matrix(ds, a) ==
  IF ~Has(ds, "W1MATRIX") \/ ~KnownBody(ds, a.body) \/ ~KnownBody(ds, a.body2) THEN <<AnyErr>>
  ELSE LET rows == RowsWhere(ds, "W1MATRIX", LAMBDA r :
                       /\ FI(r, "imtyp") = a.mtyp
                       /\ F(r, "ibconi") = Cond(ds, a.body) /\ F(r, "ibconj") = Cond(ds, a.body2))
           nf == Len(Freqs(ds))
           C == Cells(ds, rows)
           at(fi) == rows[CHOOSE k \in UNION {C[di][fi] : di \in DOMAIN C} : TRUE]
       IN  IF a.mtyp \notin {11, 12, 21, 22, 31, 32} \/ rows = <<>> THEN <<AnyErr>>
           ELSE IF a.mtyp \in {12, 21}
                THEN <<Num(<<6, 6, nf>>, Flat([k \in 1..36 |-> [fi \in 1..nf |-> at(fi).c["hmat"][k]]]))>>
                ELSE <<Num(<<6, 6>>, rows[1].c["hmat"])>>

BodyNames == <<"bmass","clenb","t","vol","wparea","wsarea","xcb","xcg","xrb","ycb","ycg","yrb",
               "zcb","zcg","zrb">>
BodyProps(ds, a) ==
  IF ~Has(ds, "WBODY") \/ ~KnownBody(ds, a.body) THEN <<AnyErr>>
  ELSE LET rows == RowsWhere(ds, "WBODY", LAMBDA r : F(r, "ibcond") = Cond(ds, a.body))
           vals == Flat([k \in 1..Len(BodyNames) |-> rows[1].c[BodyNames[k]]])
       IN  IF rows = <<>> THEN <<AnyErr>> ELSE <<Txt(BodyNames), Num(<<Len(vals)>>, vals)>>

Sections(ds) ==
  IF ~Has(ds, "WSECTION") THEN <<AnyErr>>
  ELSE <<Num(<<Len(ds["WSECTION"]), 11>>, Flat([i \in 1..Len(ds["WSECTION"]) |->
           LET c == ds["WSECTION"][i].c
           IN  c["secusr"] \o c["isecty"] \o c["p1"] \o c["p2"] \o c["p3"]]))>>
Points(ds) ==
  IF ~Has(ds, "WFKPOINT") THEN <<AnyErr>>
  ELSE <<Num(<<Len(ds["WFKPOINT"]), 3>>,
             Flat([i \in 1..Len(ds["WFKPOINT"]) |-> ds["WFKPOINT"][i].c["fkpnt"]]))>>

\* Numbers that are no whole eighths are opaque (SifReader): what 2 pi / w and
\* w in degrees are for these, times 8000.
OddPeriod == (1600000004 :> 502655) @@ (1600000006 :> 150796) @@ (1600000007 :> 16000)
             @@ (1600000008 :> 100511) @@ (1600000009 :> 100491) @@ (1600000010 :> 100491)
             @@ (1600000018 :> 5026598) @@ (1600000019 :> 5026548) @@ (1600000020 :> 503)
             @@ (1600000024 :> 41) @@ (1600000027 :> 50265) @@ (1600000028 :> 50265)
             @@ (1600000032 :> 7181) @@ (1600000033 :> 1247) @@ (1600000034 :> 140)
             @@ (1600000038 :> 167552) @@ (1600000039 :> 167552) @@ (1600000040 :> 8000)
             @@ (1600000041 :> 10667) @@ (1600000042 :> 32000) @@ (1600000043 :> 64000)
             @@ (1600000044 :> 96000) @@ (1600000045 :> 19200) @@ (1600000046 :> 9143)
             @@ (1600000049 :> 1920003) @@ (1600000050 :> 2400000) @@ (1600000051 :> 120000)
             @@ (1600000052 :> 72000) @@ (1600000053 :> 1600)
OddDegree == (1600000000 :> 0) @@ (1600000003 :> 0) @@ (1600000004 :> 45837)
             @@ (1600000005 :> -45837) @@ (1600000006 :> 152789) @@ (1600000007 :> 1440000)
             @@ (1600000008 :> 229229) @@ (1600000009 :> 229275) @@ (1600000010 :> 229275)
             @@ (1600000011 :> -229229) @@ (1600000015 :> 0) @@ (1600000016 :> 0)
             @@ (1600000017 :> 0) @@ (1600000018 :> 4584) @@ (1600000019 :> 4584)
             @@ (1600000021 :> -458) @@ (1600000026 :> 0) @@ (1600000027 :> 458366)
             @@ (1600000028 :> 458366) @@ (1600000029 :> -11) @@ (1600000031 :> 0)
             @@ (1600000032 :> 3208564) @@ (1600000035 :> -320856) @@ (1600000036 :> 5)
             @@ (1600000038 :> 137510) @@ (1600000039 :> 137510) @@ (1600000040 :> 2880000)
             @@ (1600000041 :> 2160000) @@ (1600000042 :> 720000) @@ (1600000043 :> 360000)
             @@ (1600000044 :> 240000) @@ (1600000045 :> 1200000) @@ (1600000046 :> 2520000)
             @@ (1600000047 :> -720000) @@ (1600000048 :> -1440000) @@ (1600000049 :> 12000)
             @@ (1600000050 :> 9600) @@ (1600000051 :> 192000) @@ (1600000052 :> 320000)
Period(w) == IF w \in DOMAIN OddPeriod THEN OddPeriod[w] ELSE 402124 \div w
Degree(w) == IF w \in DOMAIN OddDegree THEN OddDegree[w] ELSE (w * 572958) \div 10

Vec(q) == <<Num(<<Len(q)>>, q)>>
HydroAnswer(d, fn, a) ==
  LET ds == d.c IN
  CASE fn = "get_angular_freqs" -> IF IsFreq(ds) THEN Vec(Freqs(ds)) ELSE <<Err(<<"ResultError">>)>>
    [] fn = "get_periods" -> IF IsFreq(ds)
         THEN <<Apx(<<Len(Freqs(ds))>>, [i \in 1..Len(Freqs(ds)) |-> Period(Freqs(ds)[i])])>>
         ELSE <<Err(<<"ResultError">>)>>
    [] fn = "get_directions" ->
         CASE a.unit = "radians" -> Vec(Dirs(ds))
           [] a.unit = "degrees" -> <<Apx(<<Len(Dirs(ds))>>,
                    [i \in 1..Len(Dirs(ds)) |-> Degree(Dirs(ds)[i])])>>
           [] OTHER -> <<AnyErr>>
    [] fn = "get_timesteps" -> IF IsFreq(ds) THEN <<Err(<<"ResultError">>)>> ELSE Vec(Times(ds))
    [] fn = "constants" -> <<Num(<<2>>, <<F(ds["WGLOBDEF"][1], "g"), F(ds["WGLOBDEF"][1], "ro")>>)>>
    [] fn = "get_sections" -> Sections(ds)
    [] fn = "get_points" -> Points(ds)
    [] fn = "get_bodyproperties" -> BodyProps(ds, a)
    [] fn = "get_motion_raos" -> Resp(ds, a, "W1MOTION", "data", 6, TRUE)
    [] fn = "get_excitationforce_raos" -> Resp(ds, a, "W1EXFORC", "data", 6, TRUE)
    [] fn = "get_meandrift" -> Resp(ds, a, "W2MDRIFT", "smfor", 6, FALSE)
    [] fn = "get_horiz_meandrift" -> Resp(ds, a, "W2HDRIFT", "shfor", 3, FALSE)
    [] fn = "get_sectionforce_raos" -> SectionForces(ds, a)
    [] fn = "get_fluidkinematics_raos" -> FluidKin(ds, a)
    [] fn = "get_pressure_panel_ids" -> PanelIds(ds, a)
    [] fn = "get_panel_pressures" -> PanelPressures(ds, a)
    [] fn = "get_matrix" -> Matrix(ds, a)
    [] fn = "get_bodymass" -> Matrix(ds, [body |-> a.body, body2 |-> a.body2, mtyp |-> 11])
    [] fn = "get_addedmass" -> Matrix(ds, [body |-> a.body, body2 |-> a.body2, mtyp |-> 12])
    [] fn = "get_potentialdamping" -> Matrix(ds, [body |-> a.body, body2 |-> a.body2, mtyp |-> 21])
    [] fn = "get_viscousdamping" -> Matrix(ds, [body |-> a.body, body2 |-> a.body2, mtyp |-> 22])
    [] fn = "get_hydrostatic_restoring" -> Matrix(ds, [body |-> a.body, body2 |-> a.body2, mtyp |-> 31])
    [] fn = "get_mooring_restoring" -> Matrix(ds, [body |-> a.body, body2 |-> a.body2, mtyp |-> 32])
==============================================================================
