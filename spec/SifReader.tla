------------------------------ MODULE SifReader ------------------------------
(***************************************************************************)
(* How records lie on a file, and how a reader finds them again.  A writer *)
(* puts records of an alphabet on a file, one after another, each laid out *)
(* as it likes: last lines filled up or not, continuation data in one or   *)
(* many physical records.  A reader follows line by line.  It may look at  *)
(* the name field of a line only where the file format has one.  Whatever  *)
(* was written in whatever layout, what the reader hands on is what was    *)
(* written, and what is stored of it (SifFormat!Decode) obeys the laws     *)
(* below.  TLC takes every word over the alphabet up to a length; the      *)
(* steps are replayed into the real code.                                  *)
(*                                                                         *)
(* World: base   records every file begins with (with their kind)          *)
(*        recs   the alphabet                                              *)
(*        onlys  lists of wanted record names                              *)
(*        fmts   "F" (formatted), "U" (unformatted)                        *)
(*        n      length of the words                                       *)
(* kinds of records: 1 continuation lines begin with a blank name field;   *)
(* 2 the first value counts the values, continuation records hold nothing  *)
(* but values; 3 text lines follow, as many as the third value says;       *)
(* 4 name and text lines, counted by the third and fourth value; 5 index   *)
(* records.                                                                *)
(***************************************************************************)
EXTENDS SifFormat, Json, IOUtils

W == JsonDeserialize(IOEnv.WORLD)
KindOf == TLCEval([n \in {r.n : r \in ToSet(W.base) \union ToSet(W.recs)} |->
                     LET ks == {r.kind : r \in {x \in ToSet(W.base) \union ToSet(W.recs) : x.n = n}} \ {5}
                     IN  IF ks = {} THEN 1 ELSE Max(ks)])

VARIABLES fmt,    \* of the file
          word,   \* what has been written: <<record of the alphabet, layout>>
          todo,   \* lines the reader has not seen
          rd,     \* what the reader is in the middle of
          got,    \* records the reader has handed on
          act
vars == <<fmt, word, todo, rd, got, act>>

(* -------------------------------- layouts ------------------------------- *)
\* a line: its name field ("" blank, "?" none: data begin at once), values, text
Line(h, d, s) == [h |-> h, d |-> d, s |-> s]
Fill(d) == IF Len(d) < 4 THEN d \o [i \in 1..(4 - Len(d)) |-> 0] ELSE d
RECURSIVE Cut(_, _)
Cut(v, n) == IF v = <<>> THEN <<>>
             ELSE IF Len(v) <= n THEN <<v>> ELSE <<SubSeq(v, 1, n)>> \o Cut(SubSeq(v, n + 1, Len(v)), n)
LastFilled(ls) == [i \in 1..Len(ls) |-> Fill(ls[i])]
Rest(r) == IF Len(r.v) > 4 THEN SubSeq(r.v, 5, Len(r.v)) ELSE <<>>
Sizes == <<32, 1, 3>>          \* values per physical record

Lines(f, r, form) ==
  LET fill(ls) == IF form = 1 THEN LastFilled(ls) ELSE ls
      texts(h) == [i \in 1..Len(r.t) |-> Line(h, <<>>, r.t[i])]
      conts(h, ls) == [i \in 1..Len(ls) |-> Line(h, ls[i], "")]
  IN  IF f = "F"
      THEN LET v == fill(Cut(r.v, 4))
           IN  <<Line(r.n, v[1], "")>> \o conts("", Tail(v)) \o texts("")
      ELSE <<Line(r.n, LET h == SubSeq(r.v, 1, Min({4, Len(r.v)}))
                       IN  IF form = 1 /\ r.n \notin Supported THEN h ELSE Fill(h), "")>>
             \o (CASE r.kind = 1 -> conts("", IF form = 0 THEN LastFilled(Cut(Rest(r), 4)) ELSE Cut(Rest(r), 4))
                   [] r.kind = 2 -> conts("?", Cut(Rest(r), Sizes[form + 1]))
                   [] r.kind = 5 -> conts("?", Cut(Rest(r), 32))
                   [] OTHER -> <<>>)
             \o texts(IF r.kind = 3 THEN "" ELSE "?")
Forms(f, r) == CASE r.kind = 1 -> {0, 1}
                 [] r.kind = 2 /\ f = "U" -> {0, 1, 2}
                 [] r.kind = 2 -> {0, 1}
                 [] OTHER -> {0}

(* -------------------------------- reading ------------------------------- *)
\* what is still to come of the record in hand: values by count, lines of text, or
\* lines with a blank name field for as long as there are any
Nothing == [r |-> <<>>, nums |-> 0, texts |-> 0, open |-> FALSE]
Begin(l) ==
  LET k == KindOf[l.h]
      v == l.d
      new(nums, texts, open) == [r |-> <<[n |-> l.h, v |-> v, t |-> <<>>]>>, nums |-> nums,
                                 texts |-> texts, open |-> open]
  IN  CASE v[1] < 0 -> new(IF v[1] = -40 THEN 1 ELSE 0, 0, FALSE)
        [] k = 2 -> new(Max({0, I(v[1]) - 4}), 0, FALSE)
        [] k = 3 -> new(0, I(v[3]), FALSE)
        [] k = 4 -> new(0, I(v[3]) \div 100 + I(v[4]) \div 100, FALSE)
        [] OTHER -> new(0, 0, TRUE)
Done(x) == x.r = <<>> \/ (x.nums <= 0 /\ x.texts = 0)

\* one line: <<reader, records handed on>>
Take(x, l) ==
  IF x.nums > 0            \* values, whatever the first bytes look like
  THEN <<[x EXCEPT !.r[1].v = @ \o l.d,
                   !.nums = IF x.r[1].v[1] < 0 THEN 0 ELSE @ - Len(l.d)], <<>>>>
  ELSE IF x.texts > 0
  THEN <<[x EXCEPT !.r[1].t = Append(@, l.s), !.texts = @ - 1], <<>>>>
  ELSE IF x.open /\ l.h = ""
  THEN <<[x EXCEPT !.r[1].v = @ \o l.d], <<>>>>
  ELSE <<Begin(l), x.r>>

Init == /\ fmt = ""
        /\ word = <<>> /\ todo = <<>> /\ rd = Nothing /\ got = <<>>
        /\ act = <<"init">>

Start == /\ fmt = ""
         /\ fmt' \in ToSet(W.fmts)
         /\ act' = <<"fmt", fmt'>>
         /\ UNCHANGED <<word, todo, rd, got>>
LastName == IF word = <<>> THEN W.base[Len(W.base)].n ELSE W.recs[word[Len(word)][1]].n
Write == /\ fmt # "" /\ todo = <<>> /\ Len(word) < W.n
         /\ \E i \in 1..Len(W.recs) :
              \* an index record begins a block
              /\ ~(W.recs[i].kind = 5 /\ W.recs[i].n = LastName)
              /\ \E f \in Forms(fmt, W.recs[i]) :
                   /\ word' = Append(word, <<i, f>>)
                   /\ todo' = Lines(fmt, W.recs[i], f)
                   /\ act' = <<"write", i, f>>
         /\ UNCHANGED <<fmt, rd, got>>
Read == /\ todo # <<>>
        /\ LET t == Take(rd, todo[1])
           IN  rd' = t[1] /\ got' = got \o t[2]
        /\ todo' = Tail(todo)
        /\ act' = <<"read">>
        /\ UNCHANGED <<fmt, word>>
Next == Start \/ Write \/ Read
Spec == Init /\ [][Next]_vars

(* --------------------------------- laws --------------------------------- *)
Sent == [k \in 1..Len(word) |-> W.recs[word[k][1]]]
Bare(r) == [n |-> r.n, v |-> r.v, t |-> r.t]
Same(a, b) == /\ a.n = b.n /\ a.t = b.t
              /\ \A k \in 1..Max({Len(a.v), Len(b.v)}) : At(a.v, k) = At(b.v, k)
Seen == got \o rd.r
Quiet == todo = <<>>

\* the reader has what was written, record by record, and never ahead of it
Finds == /\ Len(Seen) <= Len(word)
         /\ \A k \in 1..Len(got) : Same(got[k], Sent[k])
         /\ Quiet => Len(Seen) = Len(word) /\ Done(rd) /\ \A k \in 1..Len(Seen) : Same(Seen[k], Sent[k])
\* names are looked for only where there are names
Honest == todo # <<>> /\ (todo[1].h = "?") => rd.nums > 0 \/ rd.texts > 0

Base == [k \in 1..Len(W.base) |-> Bare(W.base[k])]
Whole(x) == Base \o x
Sel_(S) == Decode(Whole([k \in 1..Len(word) |-> Bare(Sent[k])]), S)
\* the layout makes no difference to what is stored
Layout == Quiet => Decode(Whole(Seen), {}) = Sel_({})
\* a list of wanted names gives the part of everything that has these names
Restricted == Quiet => \A S \in {ToSet(x) : x \in ToSet(W.onlys)} :
                LET all == Sel_({})
                IN  Sel_(S) = [n \in DOMAIN all \intersect S |-> all[n]]
\* what is not stored may as well not be there
Stored(r) == r.n \in Supported /\ r.v[1] >= 0
Inert == Quiet => Decode(Whole(SelectSeq([k \in 1..Len(word) |-> Bare(Sent[k])], Stored)), {}) = Sel_({})
\* one row per record
OneRow == Quiet => LET all == Sel_({})
                       recs == Whole([k \in 1..Len(word) |-> Bare(Sent[k])])
                   IN  \A n \in {recs[k].n : k \in 1..Len(recs)} :
                         LET m == Cardinality({k \in 1..Len(recs) : recs[k].n = n /\ Stored(recs[k])})
                         IN  IF m = 0 THEN n \notin DOMAIN all ELSE Len(all[n]) = m
\* records of different types do not mind their order
Swap(x, k) == [x EXCEPT ![k] = x[k + 1], ![k + 1] = x[k]]
Commute == Quiet => LET x == [k \in 1..Len(word) |-> Bare(Sent[k])]
                    IN  \A k \in 1..(Len(x) - 1) :
                          x[k].n # x[k + 1].n => Decode(Whole(Swap(x, k)), {}) = Sel_({})
\* a record adds its own row, after those of its type, and changes no other
Adds == [][act'[1] = "write" =>
             LET old == Sel_({})
                 new == Decode(Whole([k \in 1..Len(word') |-> Bare(W.recs[word'[k][1]])]), {})
                 r == W.recs[word'[Len(word')][1]]
             IN  /\ \A n \in DOMAIN old : n \in DOMAIN new /\ IsPrefix(old[n], new[n])
                 /\ \A n \in DOMAIN new : n # r.n => n \in DOMAIN old /\ old[n] = new[n]]_vars

Edges == IF "EDGES" \in DOMAIN IOEnv
         THEN PrintT("@E " \o ToString(<<fmt, word, Len(todo)>>) \o " @ " \o ToString(act') \o " @ "
                       \o ToString(<<fmt', word', Len(todo')>>))
         ELSE TRUE
==============================================================================
