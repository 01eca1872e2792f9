------------------------------ MODULE SifStore ------------------------------
(***************************************************************************)
(* Conversions: which files are read, which datasets they become, when a   *)
(* conversion is refused, and what it leaves in the database.              *)
(*                                                                         *)
(* An interface file is a record                                           *)
(*   [dir, name    directory and file name                                 *)
(*    fpre, letter prefix and (upper case) type letter of the file name    *)
(*    lc           the letter is written in lower case                     *)
(*    ext, sin     extension as written; sin: it is a .SIN file            *)
(*    valid        the name is a Sesam file name                           *)
(*    bad          the file is damaged (cut off in the middle)             *)
(*    recs         its logical records]                                    *)
(* A database is a function from dataset paths to                          *)
(*   [c |-> content, attr |-> attributes, top |-> path of its top level,   *)
(*    nm |-> its own name].                                                *)
(***************************************************************************)
EXTENDS SifHydro

NoDb == [z \in {} |-> 0]
Attr(level, dtype, seltyp, ftype, index) ==
  [level |-> level, dtype |-> dtype, seltyp |-> seltyp, ftype |-> ftype, index |-> index]
Ds(c, attr, top, nm) == [c |-> c, attr |-> attr, top |-> top, nm |-> nm]

Hier(c) == IF "HIERARCH" \in DOMAIN c THEN c["HIERARCH"] ELSE <<>>
\* superelement number: that of the (first) HIERARCH record, else of IDENT
SelTyp(c) == IF Hier(c) # <<>> THEN FI(Hier(c)[1], "iselty") ELSE FI(c["IDENT"][1], "seltyp")

\* files that belong to the hierarchy of top file f: <<[name, ihref row]>>
LowerNames(f, c) ==
  LET hs == [i \in 1..(IF Hier(c) = <<>> THEN 0 ELSE Len(Hier(c)) - 1) |-> Hier(c)[i + 1]]
      result == f.letter \in {"R", "G"}
      want == SelectSeq(hs, LAMBDA h : IF result THEN FI(h, "islevl") = 1 ELSE FI(h, "indsel") = 1)
      let(u, l) == IF f.lc THEN l ELSE u
  IN  [i \in 1..Len(want) |->
         [h |-> want[i],
          name |-> IF result
                   THEN f.fpre \o let("R", "r") \o ToString(FI(want[i], "iselty")) \o let("H", "h")
                          \o ToString(FI(want[i], "ihref")) \o "." \o f.ext
                   ELSE f.fpre \o let("T", "t") \o ToString(FI(want[i], "iselty")) \o "." \o f.ext]]

\* the file with a name in a directory (disk: set of files), or {}
Find(disk, dir, name) == {g \in disk : g.dir = dir /\ g.name = name}

TopAttr(f, c) ==
  LET h == Hier(c)
  IN  CASE f.letter = "G" -> Attr("", "HYDRODYNAMIC", SelTyp(c), "G", 0)
        [] h # <<>> /\ ~(f.letter = "R" /\ FI(h[1], "islevl") = 1)
             -> Attr("TOPLEVEL", "STRUCTURAL", SelTyp(c), f.letter, 0)
        [] OTHER -> Attr("FIRSTLEVEL", "STRUCTURAL", SelTyp(c), f.letter, 0)

TopPath(f, c, usefp, prefix) ==
  prefix \o (IF usefp THEN f.fpre ELSE "") \o f.letter \o ToString(SelTyp(c))

LowAttr(f, h, c) ==
  IF f.letter = "R" THEN Attr("FIRSTLEVEL", "STRUCTURAL", SelTyp(c), "R", FI(h, "indsel"))
  ELSE Attr(IF FI(h, "islevl") > 1 THEN "INTERLEVEL" ELSE "FIRSTLEVEL",
            "STRUCTURAL", SelTyp(c), f.letter, 0)
LowName(f, h, c) == f.letter \o ToString(SelTyp(c))
                      \o (IF f.letter = "R" THEN "_" \o ToString(FI(h, "indsel")) ELSE "")

(***************************************************************************)
(* The datasets made of one top level file.                                *)
(***************************************************************************)
Datasets(disk, f, usefp, prefix, only) ==
  LET c == Decode(f.recs, only)
      tp == TopPath(f, c, usefp, prefix)
      low == LowerNames(f, c)
      here == SelectSeq(low, LAMBDA l : Find(disk, f.dir, l.name) # {})
      file(l) == CHOOSE g \in Find(disk, f.dir, l.name) : TRUE
      subs == TLCEval([i \in 1..Len(here) |->
                LET d == Decode(file(here[i]).recs, only)
                    nm == LowName(f, here[i].h, d)
                IN  <<tp \o "/" \o nm, Ds(d, LowAttr(f, here[i].h, d), tp, nm)>>])
  IN  (tp :> Ds(c, TopAttr(f, c), "", tp))
        @@ [p \in {subs[i][1] : i \in 1..Len(subs)} |->
              subs[CHOOSE i \in 1..Len(subs) : subs[i][1] = p][2]]

Missing(disk, f, only) ==
  LET low == LowerNames(f, Decode(f.recs, only))
  IN  {low[i].name : i \in {j \in 1..Len(low) : Find(disk, f.dir, low[j].name) = {}}}
LowerPresent(disk, f, only) ==
  LET low == LowerNames(f, Decode(f.recs, only))
  IN  UNION {Find(disk, f.dir, low[i].name) : i \in 1..Len(low)}

\* can the file (and its lower level files) be read at all?
Readable(disk, f, only) ==
  /\ ~f.bad /\ Convertible(f.recs, only)
  /\ \A g \in LowerPresent(disk, f, only) : ~g.bad /\ Convertible(g.recs, only)

(***************************************************************************)
(* One conversion of one file into database db (a function, NoDb when the  *)
(* file does not exist).  Result:                                          *)
(*   ok     it succeeds                                                    *)
(*   early  it is refused before anything is touched                       *)
(*   db     the database afterwards                                        *)
(* If a conversion that replaces the database fails half-way, its content  *)
(* is not specified (known = FALSE).                                       *)
(***************************************************************************)
ConvertOne(disk, db, f, exists, named, busy, append, usefp, prefix, only) ==
  LET early == ~exists \/ busy \/ ~f.valid \/ f.sin \/ (append /\ ~named)
  IN  IF early THEN [ok |-> FALSE, early |-> TRUE, known |-> TRUE, db |-> db, missing |-> {}]
      ELSE LET base == IF append THEN db ELSE NoDb
               readable == Readable(disk, f, only)
               new == Datasets(disk, f, usefp, prefix, only)
               clash == readable /\ DOMAIN new \intersect DOMAIN base # {}
           IN  IF readable /\ ~clash
               THEN [ok |-> TRUE, early |-> FALSE, known |-> TRUE, db |-> new @@ base,
                     missing |-> Missing(disk, f, only)]
               ELSE [ok |-> FALSE, early |-> FALSE, known |-> append, db |-> base, missing |-> {}]

(***************************************************************************)
(* A conversion call.  dbs: all databases (name -> datasets), unk: names   *)
(* of databases of unspecified content, srcs: one entry per source file    *)
(*   [f, exists, named, target, busy, append, usefp, prefix, only];        *)
(* busy: the target database is open.                                      *)
(* The sources are taken in turn, the first failure ends the call.         *)
(***************************************************************************)
\* a call with as many prefixes as files; else it is refused before anything is touched
NotDone(dbs, unk) == [ok |-> FALSE, early |-> TRUE, dbs |-> dbs, unk |-> unk, missing |-> {}, free |-> FALSE]

RECURSIVE ConvertCall(_, _, _, _)
ConvertCall(disk, dbs, unk, srcs) ==
  IF srcs = <<>> THEN [ok |-> TRUE, early |-> TRUE, dbs |-> dbs, unk |-> unk, missing |-> {}, free |-> FALSE]
  ELSE LET s == srcs[1]
           old == IF s.target \in DOMAIN dbs THEN dbs[s.target] ELSE NoDb
           r == ConvertOne(disk, old, s.f, s.exists, s.named, s.busy, s.append, s.usefp, s.prefix, s.only)
           touched == ~r.early
           \* adding to a database of unspecified content may or may not be refused
           free == s.append /\ s.target \in unk
           dbs1 == IF ~touched THEN dbs
                   ELSE IF r.known THEN (s.target :> r.db) @@ dbs
                   ELSE [d \in DOMAIN dbs \ {s.target} |-> dbs[d]]
           unk1 == IF ~touched THEN unk
                   ELSE IF r.known THEN (IF s.append /\ s.target \in unk THEN unk ELSE unk \ {s.target})
                   ELSE unk \union {s.target}
           dbs2 == [d \in DOMAIN dbs1 \ unk1 |-> dbs1[d]]
       IN  IF ~r.ok THEN [ok |-> FALSE, early |-> r.early, dbs |-> dbs2, unk |-> unk1, missing |-> {}, free |-> free]
           ELSE LET q == ConvertCall(disk, dbs2, unk1, Tail(srcs))
                IN  [q EXCEPT !.missing = q.missing \union r.missing, !.early = FALSE, !.free = q.free \/ free]
==============================================================================
