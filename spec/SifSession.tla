----------------------------- MODULE SifSession ------------------------------
(***************************************************************************)
(* Questions asked one after the other.  A file is converted and opened,   *)
(* or opened directly, through some handles; through every open handle any *)
(* of a list of questions may be asked, right or wrong, after any other.   *)
(* Nothing an answer needs is remembered: what is answered depends on the  *)
(* data and on the question.  The state therefore is only which handles    *)
(* are open and which question was asked last, and the steps are all       *)
(* ordered pairs of questions; with EDGES they are written out and the     *)
(* harness asks the real code, which might remember, in these orders.      *)
(*                                                                         *)
(* World: files, disk, top (key of the file), handles ([h, mem]),          *)
(*        qs ([fn, ds, a])                                                 *)
(***************************************************************************)
EXTENDS SifStore, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)
Disk == {W.files[k] : k \in ToSet(W.disk)}
Top == W.files[W.top]
H == ToSet(W.handles)
N == Len(W.qs)
\* the databases: what is stored on disk, and what is opened directly
ASSUME TLCSet(7, [disk |-> ConvertOne(Disk, NoDb, Top, TRUE, TRUE, FALSE, FALSE, TRUE, "", {}),
                  mem |-> [db |-> Datasets(Disk, Top, TRUE, "", {})]])
Db(h) == IF h.mem THEN TLCGet(7).mem.db ELSE TLCGet(7).disk.db

AnswerOf(db, x) ==
  LET d == db[x.ds]
      env == [c |-> d.c, attr |-> d.attr, top |-> IF d.top = "" THEN Emp ELSE db[d.top].c]
  IN  IF d.attr.dtype = "HYDRODYNAMIC" THEN HydroAnswer(env, x.fn, x.a) ELSE StrucAnswer(env, x.fn, x.a)
ASSUME TLCSet(8, [i \in 1..N |-> AnswerOf(Db([mem |-> FALSE]), W.qs[i])])
Stored(i) == TLCGet(8)[i]

VARIABLES open,     \* handles
          last,     \* <<handle, question>> asked last
          ans,      \* the answer given
          act
vars == <<open, last, ans, act>>

Closed == <<Err(<<"ClosedFileError">>)>>
Init == open = {} /\ last = <<>> /\ ans = <<>> /\ act = <<"init">>
Open(h) == /\ h \notin open /\ open' = open \union {h} /\ act' = <<"open", h.h, 0>>
           /\ UNCHANGED <<last, ans>>
Close(h) == /\ h \in open /\ open' = open \ {h} /\ act' = <<"close", h.h, 0>>
            /\ last' = IF last # <<>> /\ last[1] = h.h THEN <<>> ELSE last
            /\ ans' = IF last # <<>> /\ last[1] = h.h THEN <<>> ELSE ans
Ask(h, i) == /\ h \in open /\ last' = <<h.h, i>> /\ act' = <<"ask", h.h, i>>
             /\ ans' = IF h.mem THEN AnswerOf(Db(h), W.qs[i]) ELSE Stored(i)
             /\ UNCHANGED open
Next == \E h \in H : Open(h) \/ Close(h) \/ \E i \in 1..N : Ask(h, i)
Spec == Init /\ [][Next]_vars
View == <<open, last>>

(* --------------------------------- laws --------------------------------- *)
\* the same answer through whatever handle, after whatever question
Function == last # <<>> => ans = Stored(last[2])
\* an answer is well formed: as many values as its shape says, or one refusal
Formed == \A i \in 1..Len(ans) :
   LET x == ans[i]
   IN  CASE x.k \in {"num", "apx"} -> Len(x.d) = ProdSeq(x.s)
         [] x.k \in {"cpx", "apxc"} -> Len(x.d) = 2 * ProdSeq(x.s)
         [] x.k = "txt" -> Len(x.x) = ProdSeq(x.s)
         [] x.k = "map" -> Len(x.d) = Len(x.x)
         [] x.k = "err" -> Len(ans) = 1
         [] OTHER -> x.k \in {"none", "any"}
\* both kinds of questions are among them
Mixed == \/ N < 20
         \/ /\ \E i \in 1..N : Stored(i)[1].k = "err"
            /\ \E i \in 1..N : Stored(i)[1].k # "err"
ASSUME Mixed

Edges == IF "EDGES" \in DOMAIN IOEnv
         THEN PrintT("@E " \o ToString(<<{h.h : h \in open}, last>>) \o " @ " \o ToString(act') \o " @ "
                       \o ToString(<<{h.h : h \in open'}, last'>>))
         ELSE TRUE
==============================================================================
