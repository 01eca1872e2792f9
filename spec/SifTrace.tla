------------------------------ MODULE SifTrace ------------------------------
(***************************************************************************)
(* Trace validation.  A case is a history of calls made to the real        *)
(* library, with everything that was observed.  The system state of the    *)
(* specification is advanced by the specification's own actions; what was  *)
(* observed is compared with what the specification says, and every        *)
(* disagreement is collected as a failing clause in the verdict.           *)
(*                                                                         *)
(* State of the system:                                                    *)
(*   disk    keys of the interface files that exist                        *)
(*   dbs     databases on disk, with their datasets                        *)
(*   unk     databases a failed conversion left in an unspecified state    *)
(*   open    handle -> [db: its datasets, open]                            *)
(***************************************************************************)
EXTENDS SifStore, Json, IOUtils
X == INSTANCE SifExport

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, disk, dbs, unk, open, dig, bad
vars == <<c, l, disk, dbs, unk, open, dig, bad>>

Case == Trace[c]
Ev == Case.ev[l]
Files == Case.files
Disk == {Files[k] : k \in disk}
\* a file of which, during this call, the data could not be read
Hurt(k) == [Files[k] EXCEPT !.bad = @ \/ k \in ToSet(Ev.obs.fired)]
HurtDisk == {Hurt(k) : k \in disk}

SeqToSet(q) == ToSet(q)
\* a broken clause: what kind of thing is wrong (tag), where, and how
Clause(tag, p, s) == IF p THEN {} ELSE {tag \o ": event " \o ToString(l) \o " (" \o Ev.op \o ") " \o s}

Init == /\ c \in 1..Len(Trace)
        /\ l = 1
        /\ disk = ToSet(Trace[c].disk)
        /\ dbs = NoDb /\ unk = {}
        /\ open = [z \in {} |-> 0]
        /\ dig = Trace[c].dig
        /\ bad = {}

(* --------------------------- observations ------------------------------- *)
KindName(attr) == CASE attr.dtype = "HYDRODYNAMIC" -> "HydroData"
                    [] attr.level = "TOPLEVEL" -> "TopLevelData"
                    [] attr.level = "INTERLEVEL" -> "InterLevelData"
                    [] OTHER -> "FirstLevelData"
KindWord(attr) == CASE attr.dtype = "HYDRODYNAMIC" -> "hydrodynamic"
                    [] attr.level = "TOPLEVEL" -> "toplevel"
                    [] attr.level = "INTERLEVEL" -> "interlevel"
                    [] OTHER -> "firstlevel"

AttrDiff(p, e, o, sub) ==
  {p \o ": " \o k \o " recorded as " \o ToString(o[k]) \o ", must be " \o ToString(e[k])
     : k \in {q \in {"level", "dtype", "seltyp", "ftype"} : o[q] # e[q]}
                \union (IF sub /\ e.ftype = "R" /\ o.index # e.index THEN {"index"} ELSE {})}

\* the record names a dataset lists are those of its tables
NoTable == {"IEND", "IRECSIZE"}
NamesDiff(p, o) ==
  {p \o ": lists " \o n \o ", which it does not have" : n \in ToSet(o.names) \ (DOMAIN o.tabs \union NoTable)}
    \union {p \o ": does not list " \o n : n \in DOMAIN o.tabs \ ToSet(o.names)}
    \union (IF Cardinality(ToSet(o.names)) = Len(o.names) THEN {} ELSE {p \o ": lists names twice"})

DbDiff(name, e, o) ==
  {name \o ": dataset " \o p \o " is missing" : p \in DOMAIN e \ DOMAIN o}
    \union {name \o ": dataset " \o p \o " should not be there" : p \in DOMAIN o \ DOMAIN e}
    \union UNION {AttrDiff(name \o ":" \o p, e[p].attr, o[p].attr, e[p].top # "")
                   \union NamesDiff(name \o ":" \o p, o[p])
                   \union {name \o ":" \o p \o ": " \o s : s \in ContentDiff(e[p].c, o[p].tabs)}
                   : p \in DOMAIN e \intersect DOMAIN o}

DbsDiff(e, u, o) ==
  {"database " \o n \o " does not exist" : n \in (DOMAIN e \union u) \ DOMAIN o}
    \union {"database " \o n \o " should not exist" : n \in DOMAIN o \ (DOMAIN e \union u)}
    \union UNION {DbDiff(n, e[n], o[n]) : n \in DOMAIN e \intersect DOMAIN o}

Marks(tag, s) == {tag \o ": event " \o ToString(l) \o " (" \o Ev.op \o ") " \o x : x \in s}

NOpen(op) == Cardinality({h \in DOMAIN op : op[h].open})
\* what must hold after every call
After(op) == Clause("open", Ev.obs.nopen = NOpen(op), ToString(Ev.obs.nopen) \o " files are open, must be "
                                                \o ToString(NOpen(op)))
SameDisk == Clause("disk", Ev.obs.dig = dig, "files on disk were changed")

(* -------------------------------- actions ------------------------------- *)
IsOp(o) == l <= Len(Case.ev) /\ Ev.op = o /\ l' = l + 1 /\ UNCHANGED c

\* the environment puts or removes an interface file
Put == /\ IsOp("put") /\ disk' = (disk \ ToSet(Ev.del)) \union ToSet(Ev.add)
       /\ dig' = Ev.obs.dig
       /\ UNCHANGED <<dbs, unk, open, bad>>

\* one conversion call
Target(f) == IF Ev.db # "" THEN Ev.db ELSE f.stem \o "h5"
Busy == {open[h].name : h \in {x \in DOMAIN open : open[x].open}}
Srcs == [i \in 1..Len(Ev.src) |->
           LET f == Hurt(Ev.src[i])
           IN  [f |-> f, exists |-> Ev.src[i] \in disk, named |-> Ev.db # "",
                target |-> Target(f), busy |-> Target(f) \in Busy,
                append |-> IF Ev.db # "" /\ i > 1 THEN TRUE ELSE Ev.append,
                usefp |-> Ev.usefp, prefix |-> IF i <= Len(Ev.prefix) THEN Ev.prefix[i] ELSE "", only |-> ToSet(Ev.only)]]

Convert ==
  /\ IsOp("convert")
  /\ LET r == IF Len(Ev.prefix) # Len(Ev.src) THEN NotDone(dbs, unk)
              ELSE ConvertCall(HurtDisk, dbs, unk, Srcs)
         said == ToSet(Ev.obs.said)
     IN  /\ dbs' = r.dbs /\ unk' = r.unk
         /\ bad' = bad
              \union Clause("outcome", r.free \/ Ev.obs.ok = r.ok,
                            IF r.ok THEN "fails with " \o Ev.obs.err ELSE "must be refused")
              \union (IF Ev.obs.ok /\ r.ok
                      THEN Clause("ret", Ev.obs.ret = IF Ev.isseq THEN "" ELSE Srcs[1].target,
                                  "returned path " \o Ev.obs.ret)
                             \union Clause("report", r.missing \subseteq said, "missing file not reported")
                             \union Clause("report", said \intersect ({f.name : f \in Disk} \ r.missing) = {},
                                           "existing file reported as missing")
                      ELSE {})
              \union Clause("leak", Ev.obs.leak = 0, "files stay open")
              \union (IF r.ok = Ev.obs.ok THEN Marks("content", DbsDiff(r.dbs, r.unk, Ev.obs.dbs)) ELSE {})
              \union After(open)
              \union (IF ~r.ok /\ r.early THEN SameDisk ELSE {})
         /\ dig' = Ev.obs.dig
  /\ UNCHANGED <<disk, open>>

\* a hydrodynamic dataset needs its wave data and constants to be used at all
Usable(db) == \A p \in DOMAIN db : db[p].attr.dtype = "HYDRODYNAMIC"
                                     => {"WDRESREF", "WGLOBDEF"} \subseteq DOMAIN db[p].c
Kinds(db) == [p \in DOMAIN db |-> KindName(db[p].attr)]

OpenDb ==
  /\ IsOp("open")
  /\ LET known == Ev.db \in DOMAIN dbs
         db == IF known THEN dbs[Ev.db] ELSE NoDb
     IN  /\ open' = IF Ev.obs.ok THEN (Ev.h :> [name |-> Ev.db, db |-> db, open |-> TRUE, known |-> known, mem |-> ""]) @@ open
                    ELSE open
         /\ bad' = bad \union (IF known
                               THEN Clause("outcome", Ev.obs.ok \/ ~Usable(db), "cannot be opened: " \o Ev.obs.err)
                                    \union (IF Ev.obs.ok THEN Clause("kinds", Ev.obs.kinds = Kinds(db),
                                              "datasets " \o ToString(Ev.obs.kinds)) ELSE {})
                               ELSE {})
                       \union After(open') \union SameDisk
  /\ UNCHANGED <<disk, dbs, unk, dig>>

\* opening an interface file: as converting and opening, in memory
OpenSif ==
  /\ IsOp("opensif")
  /\ LET f == Hurt(Ev.f)
         exists == Ev.f \in disk
         r == ConvertOne(HurtDisk, NoDb, f, exists, TRUE, FALSE, FALSE, TRUE, "", {})
     IN  /\ open' = IF Ev.obs.ok
                    THEN (Ev.h :> [name |-> "", db |-> r.db, open |-> TRUE, known |-> r.ok,
                                   mem |-> IF r.ok THEN TopPath(f, Decode(f.recs, {}), TRUE, "") ELSE ""]) @@ open
                    ELSE open
         /\ bad' = bad \union Clause("outcome", Ev.obs.ok = r.ok \/ (r.ok /\ ~Usable(r.db)),
                                     IF r.ok THEN "fails with " \o Ev.obs.err ELSE "must be refused")
                       \union (IF Ev.obs.ok /\ r.ok THEN Clause("kinds", Ev.obs.kinds = Kinds(r.db),
                                              "datasets " \o ToString(Ev.obs.kinds)) ELSE {})
                       \union After(open') \union SameDisk
  /\ UNCHANGED <<disk, dbs, unk, dig>>

Close ==
  /\ IsOp("close")
  /\ open' = [open EXCEPT ![Ev.h].open = FALSE]
  /\ bad' = bad \union Clause("outcome", Ev.obs.ok, "fails with " \o Ev.obs.err) \union After(open') \union SameDisk
  /\ UNCHANGED <<disk, dbs, unk, dig>>
CloseAll ==
  /\ IsOp("closeall")
  /\ open' = [h \in DOMAIN open |-> [open[h] EXCEPT !.open = FALSE]]
  /\ bad' = bad \union Clause("outcome", Ev.obs.ok, "fails with " \o Ev.obs.err) \union After(open') \union SameDisk
  /\ UNCHANGED <<disk, dbs, unk, dig>>

\* questions to the File object; answers are texts in any order
BagOf(q) == [x \in ToSet(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
FileOk(h, o) ==
  LET db == h.db
      ks == DOMAIN db
      paths == SetToSeq(ks)
      text(t(_)) == [i \in 1..Len(paths) |-> t(paths[i])]
      bag(t(_)) == o.k = "txt" /\ BagOf(o.x) = BagOf(text(t))
      kindname(p) == KindName(db[p].attr) \o ":" \o db[p].nm
  IN  IF Ev.fn \in {"str", "repr"} /\ ~h.open THEN o.k = "txt"
      ELSE IF ~h.open THEN o.k = "err" /\ o.x[1] = "ClosedFileError"
      ELSE CASE Ev.fn = "keys" -> bag(LAMBDA p : p)
             [] Ev.fn \in {"values", "iter"} -> bag(LAMBDA p : kindname(p))
             [] Ev.fn = "items" -> bag(LAMBDA p : p \o "=" \o kindname(p))
             [] Ev.fn = "contains" -> o.k = "num" /\ o.d = <<IF Ev.key \in ks THEN 8 ELSE 0>>
             [] Ev.fn = "getitem" -> IF Ev.key \in ks
                                     THEN o.k = "txt" /\ o.x = <<kindname(Ev.key)>> ELSE o.k = "err"
             [] Ev.fn = "get" -> IF Ev.key \in ks
                                 THEN o.k = "txt" /\ o.x = <<kindname(Ev.key)>> ELSE o.k = "none"
             [] Ev.fn = "str" -> o.k = "txt" /\ ToSet(o.x) = {p \o ":" \o KindWord(db[p].attr) : p \in ks}  \* every dataset
             [] Ev.fn = "repr" -> o.k = "txt" /\ ToSet(o.x) = {db[p].nm : p \in ks}

AskFile ==
  /\ IsOp("ask")
  /\ LET h == open[Ev.h]
     IN bad' = bad \union (IF h.known \/ ~h.open
                           THEN Clause("ask", FileOk(h, Ev.obs.ans[1]),
                                  Ev.fn \o "(" \o Ev.key \o ") answers " \o ToString(Ev.obs.ans[1]))
                           ELSE {})
                   \union After(open) \union SameDisk
  /\ UNCHANGED <<disk, dbs, unk, open, dig>>

\* a query on a dataset
Path(h) == IF Ev.ds = "@" THEN h.mem ELSE Ev.ds
\* a question that is not one may be refused as such, whether the file is open or not
NoQuestion(a) ==
  \/ a.restype \notin {"", "displacement", "velocity", "acceleration", "beamforce", "generalstress",
                       "decomposedstress"}
  \/ a.kind \notin {"", "beam", "shell"} \/ a.ntype \notin {"internal", "external"}
  \/ a.unit \notin {"degrees", "radians"} \/ a.what \notin {"elevation", "pressure", "velocity"}
  \/ a.mtyp \notin {11, 12, 21, 22, 31, 32} \/ a.trans.m = "bad"
Expected(h) ==
  IF ~h.open THEN <<Err(<<"ClosedFileError">> \o (IF NoQuestion(Ev.a) THEN <<"ValueError">> ELSE <<>>)
                                \* attributes are gone when the file is closed
                                \o (IF Ev.fn = "constants" THEN <<"AttributeError">> ELSE <<>>))>>
  ELSE LET d == h.db[Path(h)]
           env == [c |-> d.c, attr |-> d.attr,
                   top |-> IF d.top = "" THEN Emp ELSE h.db[d.top].c]
       IN  IF d.attr.dtype = "HYDRODYNAMIC" THEN HydroAnswer(env, Ev.fn, Ev.a)
           ELSE StrucAnswer(env, Ev.fn, Ev.a)
FirstDiff(e, o) ==
  IF Len(e) # Len(o) THEN " (number of parts)"
  ELSE LET i == Min({j \in 1..Len(e) : ~ItemOk(e[j], o[j], Ev.tol)})
       IN  IF o[i].k = "err" THEN " part " \o ToString(i) \o " fails with " \o o[i].x[1]
           ELSE IF e[i].k = "err" THEN " must be refused"
           ELSE IF e[i].s # o[i].s THEN " part " \o ToString(i) \o " shape " \o ToString(o[i].s)
                                           \o ", must be " \o ToString(e[i].s)
           ELSE IF Len(e[i].d) = Len(o[i].d) /\ e[i].d # o[i].d
                THEN LET k == Min({j \in 1..Len(e[i].d) : ~Near(e[i].d[j], o[i].d[j],
                                      IF e[i].k \in {"apx", "apxc"} THEN Ev.tol ELSE 0)} \union {Len(e[i].d)})
                     IN  " part " \o ToString(i) \o " value no. " \o ToString(k) \o " is "
                           \o ToString(o[i].d[k]) \o ", must be " \o ToString(e[i].d[k])
           ELSE " part " \o ToString(i) \o " is " \o o[i].k \o " " \o ToString(o[i].x)
                  \o ", must be " \o e[i].k \o " " \o ToString(e[i].x)

Query ==
  /\ IsOp("q")
  /\ LET h == open[Ev.h]
         e == Expected(h)
         o == Ev.obs.ans
     IN  bad' = bad \union (IF (h.known /\ (~h.open \/ Path(h) \in DOMAIN h.db)) \/ ~h.open
                            THEN Clause("answer", AnswerOk(e, o, Ev.tol), Ev.fn \o IF AnswerOk(e, o, Ev.tol) THEN ""
                                                   ELSE FirstDiff(e, o) \o " asked with " \o ToString(Ev.a))
                            ELSE {})
                    \union Clause("args", Ev.obs.argsame, Ev.fn \o " changed its arguments")
                    \union After(open) \union SameDisk
  /\ UNCHANGED <<disk, dbs, unk, open, dig>>

\* nodes, elements and results of a dataset, given to a VTU writer
Export ==
  /\ IsOp("export")
  /\ LET h == open[Ev.h]
         d == h.db[Path(h)]
         env == [c |-> d.c, attr |-> d.attr, top |-> IF d.top = "" THEN Emp ELSE h.db[d.top].c]
     IN  bad' = bad \union Clause("outcome", Ev.obs.ok, "fails with " \o Ev.obs.err)
                    \union (IF Ev.obs.ok /\ h.known
                            THEN Marks("export", X!ExportDiff(env, Ev.pieces, Ev.obs.doc)) ELSE {})
                    \union After(open) \union SameDisk
  /\ UNCHANGED <<disk, dbs, unk, open, dig>>

Finish ==
  /\ l = Len(Case.ev) + 1
  /\ l' = l + 1
  /\ PrintT(<<"VERDICT", Case.id, IF bad = {} THEN "ok" ELSE "bad">>)
  /\ \A b \in bad : PrintT(<<"CLAUSE", Case.id, b>>)
  /\ UNCHANGED <<c, disk, dbs, unk, open, dig, bad>>

Next == Put \/ Convert \/ OpenDb \/ OpenSif \/ Close \/ CloseAll \/ AskFile \/ Query \/ Export \/ Finish

Spec == Init /\ [][Next]_vars
==============================================================================
