----------------------------- MODULE SifSystem ------------------------------
(***************************************************************************)
(* The system left to itself: interface files come and go, conversions,    *)
(* databases and files are opened and closed, in any order.  TLC explores  *)
(* every reachable state of a small world (WORLD, a JSON file) and checks  *)
(* the guarantees below on all its states and steps.  With EDGES the steps *)
(* are written out; the harness replays all of them into the real code.    *)
(*                                                                         *)
(* World: files    key -> interface file (as in SifStore)                  *)
(*        disk     keys of the files that exist at the start               *)
(*        convs    conversion calls that may be made                       *)
(*                 [src, isseq, db, append, usefp, prefix, only]           *)
(*        opens    databases that may be opened                            *)
(*        sifs     files that may be opened directly                       *)
(*        moves    files that may be removed and put back                  *)
(*        handles  names of File objects                                   *)
(***************************************************************************)
EXTENDS SifStore, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)

VARIABLES disk, dbs, unk, open, act
vars == <<disk, dbs, unk, open, act>>

Files == W.files
Disk(d) == {Files[k] : k \in d}
Closed == [kind |-> "", name |-> "", db |-> NoDb, open |-> FALSE]

Init == /\ disk = ToSet(W.disk)
        /\ dbs = NoDb /\ unk = {}
        /\ open = [h \in ToSet(W.handles) |-> Closed]
        /\ act = <<"init">>

Busy == {open[h].name : h \in {x \in DOMAIN open : open[x].open /\ open[x].kind = "db"}}
Target(c, f) == IF c.db # "" THEN c.db ELSE f.stem \o "h5"
Srcs(c) == [i \in 1..Len(c.src) |->
   LET f == Files[c.src[i]]
   IN  [f |-> f, exists |-> c.src[i] \in disk, named |-> c.db # "", target |-> Target(c, f),
        busy |-> Target(c, f) \in Busy, append |-> IF c.db # "" /\ i > 1 THEN TRUE ELSE c.append,
        usefp |-> c.usefp, prefix |-> IF i <= Len(c.prefix) THEN c.prefix[i] ELSE "", only |-> ToSet(c.only)]]

Convert == \E i \in 1..Len(W.convs) :
  LET r == IF Len(W.convs[i].prefix) # Len(W.convs[i].src) THEN NotDone(dbs, unk)
           ELSE ConvertCall(Disk(disk), dbs, unk, Srcs(W.convs[i]))
  IN  /\ ~r.free                       \* what is added to an unspecified database is left open
      /\ dbs' = r.dbs /\ unk' = r.unk
      /\ act' = <<"convert", i, r.ok, r.early>>
      /\ UNCHANGED <<disk, open>>

\* the first File object that is not open
Free == {h \in DOMAIN open : ~open[h].open}
Next1 == CHOOSE h \in Free : \A k \in Free : PosIn(W.handles, h) <= PosIn(W.handles, k)

Open == /\ Free # {}
        /\ \E n \in ToSet(W.opens) \intersect DOMAIN dbs :
             /\ open' = [open EXCEPT ![Next1] = [kind |-> "db", name |-> n, db |-> dbs[n], open |-> TRUE]]
             /\ act' = <<"open", Next1, n>>
        /\ UNCHANGED <<disk, dbs, unk>>

OpenSif == /\ Free # {}
           /\ \E k \in ToSet(W.sifs) :
                LET f == Files[k]
                    r == ConvertOne(Disk(disk), NoDb, f, k \in disk, TRUE, FALSE, FALSE, TRUE, "", {})
                IN  /\ \A h \in DOMAIN open : ~(open[h].open /\ open[h].kind = "sif" /\ open[h].name = f.stem)
                    /\ open' = IF r.ok THEN [open EXCEPT ![Next1] =
                                               [kind |-> "sif", name |-> f.stem, db |-> r.db, open |-> TRUE]]
                               ELSE open
                    /\ act' = <<"opensif", Next1, k, r.ok>>
           /\ UNCHANGED <<disk, dbs, unk>>

Close == \E h \in DOMAIN open :
           /\ open[h].kind # ""
           /\ open' = [open EXCEPT ![h].open = FALSE]
           /\ \E via \in {""} \union DOMAIN open[h].db : act' = <<"close", h, via>>
           /\ UNCHANGED <<disk, dbs, unk>>
CloseAll == /\ \E h \in DOMAIN open : open[h].kind # ""
            /\ open' = [h \in DOMAIN open |-> [open[h] EXCEPT !.open = FALSE]]
            /\ act' = <<"closeall">>
            /\ UNCHANGED <<disk, dbs, unk>>

Move == \E k \in ToSet(W.moves) :
          /\ disk' = IF k \in disk THEN disk \ {k} ELSE disk \union {k}
          /\ act' = <<IF k \in disk THEN "remove" ELSE "put", k>>
          /\ UNCHANGED <<dbs, unk, open>>

Next == Convert \/ Open \/ OpenSif \/ Close \/ CloseAll \/ Move
Spec == Init /\ [][Next]_vars

(* ------------------------------ guarantees ------------------------------ *)
\* every dataset below the top level has its top level, in the same database
Whole == \A n \in DOMAIN dbs : \A p \in DOMAIN dbs[n] :
            dbs[n][p].top # "" => /\ dbs[n][p].top \in DOMAIN dbs[n]
                                  /\ p = dbs[n][p].top \o "/" \o dbs[n][p].nm
                                  /\ dbs[n][dbs[n][p].top].attr.level = "TOPLEVEL"
\* a dataset without lower levels of its own is no top level
Kinds == \A n \in DOMAIN dbs : \A p \in DOMAIN dbs[n] :
           /\ dbs[n][p].attr.dtype \in {"STRUCTURAL", "HYDRODYNAMIC"}
           /\ dbs[n][p].attr.level \in {"", "FIRSTLEVEL", "INTERLEVEL", "TOPLEVEL"}
           /\ dbs[n][p].attr.level = "" <=> dbs[n][p].attr.dtype = "HYDRODYNAMIC"
Apart == DOMAIN dbs \intersect unk = {}
\* a database that is open is the one on disk
SeenIsStored == \A h \in DOMAIN open :
   open[h].open /\ open[h].kind = "db" => open[h].name \in DOMAIN dbs /\ dbs[open[h].name] = open[h].db

\* several files at once, or one after another: the same databases
InTurn(c) ==
  LET s == Srcs(c)
      one(i, d, u) == ConvertCall(Disk(disk), d, u, <<s[i]>>)
      all == ConvertCall(Disk(disk), dbs, unk, s)
      a == one(1, dbs, unk)
      b == one(2, a.dbs, a.unk)
  IN  Len(s) = 2 /\ Len(c.prefix) = 2
                 => /\ all.ok = (a.ok /\ b.ok)
                    /\ a.ok => all.dbs = b.dbs /\ all.unk = b.unk
                    /\ ~a.ok => all.dbs = a.dbs /\ all.unk = a.unk
SameInTurn == \A i \in 1..Len(W.convs) : InTurn(W.convs[i])

IsConv == act'[1] = "convert"
Conv == W.convs[act'[2]]
Targets == {s.target : s \in ToSet(Srcs(Conv))}
\* only conversions change databases, and only those they name
Isolation == [][\A n \in DOMAIN dbs \union DOMAIN dbs' \union unk \union unk' :
                  (~IsConv \/ n \notin Targets)
                     => /\ n \in DOMAIN dbs <=> n \in DOMAIN dbs'
                        /\ n \in unk <=> n \in unk'
                        /\ n \in DOMAIN dbs => dbs'[n] = dbs[n]]_vars
\* a database that is open is not changed
OpenKept == [][\A n \in Busy : n \in DOMAIN dbs' /\ dbs'[n] = dbs[n]]_vars
\* a File object keeps its content for as long as it is open, and after
Frozen == [][\A h \in DOMAIN open : open[h].open => open'[h] = [open[h] EXCEPT !.open = open'[h].open]]_vars
\* a call that is refused at once leaves everything as it was
NothingDone == [][IsConv /\ ~act'[3] /\ act'[4] => UNCHANGED <<disk, dbs, unk, open>>]_vars
\* appending keeps what is there
AppendKeeps == [][IsConv /\ Conv.append =>
                    \A n \in DOMAIN dbs : /\ n \in DOMAIN dbs' /\ DOMAIN dbs[n] \subseteq DOMAIN dbs'[n]
                                          /\ \A p \in DOMAIN dbs[n] : dbs'[n][p] = dbs[n][p]]_vars
\* what a conversion that replaces leaves does not depend on the past
Fresh == [][IsConv /\ act'[3] /\ ~Conv.append /\ Len(Conv.src) = 1 =>
              LET s == Srcs(Conv)[1]
              IN  dbs'[s.target] = Datasets(Disk(disk), s.f, s.usefp, s.prefix, s.only)]_vars
\* a failed append does nothing at all
FailedAppend == [][IsConv /\ ~act'[3] /\ Conv.append /\ Len(Conv.src) = 1
                     => \A n \in DOMAIN dbs : dbs'[n] = dbs[n]]_vars
\* conversions leave the interface files alone
FilesKept == [][IsConv => disk' = disk]_vars

(* ------------------------------- the steps ------------------------------ *)
View == <<disk, dbs, unk, open>>
Tag(d) == <<d.attr.seltyp, F(d.c["IDENT"][1], "selmod"), Cardinality(DOMAIN d.c), d.attr.index>>
Short(db) == [p \in DOMAIN db |-> Tag(db[p])]
Id(d, b, u, o) == ToString(<<d, [n \in DOMAIN b |-> Short(b[n])], u,
                    [h \in DOMAIN o |-> <<o[h].kind, o[h].name, o[h].open, Short(o[h].db)>>]>>)
Edges == IF "EDGES" \in DOMAIN IOEnv
         THEN PrintT("@E " \o Id(disk, dbs, unk, open) \o " @ " \o ToString(act') \o " @ "
                       \o Id(disk', dbs', unk', open'))
         ELSE TRUE
==============================================================================
