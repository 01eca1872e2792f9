---------------------------- MODULE SifVtuModel -----------------------------
(***************************************************************************)
(* The writer left to itself: pieces, sections and data in any order, up   *)
(* to World.n calls that are accepted and any number that are refused.     *)
(* World: pieces [pts, con, ends, types], arrs [a, name, comps], n.        *)
(***************************************************************************)
EXTENDS SifVtu, Json, IOUtils

World == JsonDeserialize(IOEnv.WORLD)
VARIABLES w, done, act
vars == <<w, done, act>>

Init == w = New /\ done = <<>> /\ act = <<"init">>

Do(name, r) == /\ (r.ok => Len(done) < World.n)
               /\ w' = r.w
               /\ done' = IF r.ok THEN Append(done, name) ELSE done
               /\ act' = Append(name, r.ok)
Next == \/ \E i \in 1..Len(World.pieces) :
             LET p == World.pieces[i] IN Do(<<"piece", i>>, Piece(w, p.pts, p.con.d, p.ends.d, p.types.d))
        \/ Do(<<"startp", 0>>, Section(w, "PointData"))
        \/ Do(<<"startc", 0>>, Section(w, "CellData"))
        \/ \E i \in 1..Len(World.arrs) :
             LET x == World.arrs[i]
             IN  \/ Do(<<"add", i>>, Add(w, x.a, x.name, x.comps))
                 \/ /\ w.doc # <<>> => x.a.s[1] = Len(Last(w.doc).con)    \* rows fit the elements
                    /\ Do(<<"addn", i>>, AddNodes(w, x.a, x.name, x.comps))
        \/ w.open /\ w' = Close(w).w /\ done' = Append(done, <<"close", 0>>) /\ act' = <<"close", 0, TRUE>>
Spec == Init /\ [][Next]_vars

(* ------------------------------ guarantees ------------------------------ *)
Legal == /\ w.sec # "" => w.piece
         /\ w.piece => w.open /\ w.doc # <<>>
         /\ w.sec # "" => Last(Last(w.doc).secs).tag = w.sec
\* connectivity refers to points of its own piece
Refers == \A p \in ToSet(w.doc) : \A i \in 1..Len(p.con) : p.con[i] >= 0 /\ p.con[i] < 8 * p.np
\* every cell keeps its nodes; only their order may change
Cells(con, ends) == [e \in 1..Len(ends) |-> SubSeq(con, IF e = 1 THEN 1 ELSE ends[e - 1] + 1, ends[e])]
SameBag(q, r) == Len(q) = Len(r) /\ \A x \in ToSet(q) \union ToSet(r) :
                   Cardinality({i \in 1..Len(q) : q[i] = x}) = Cardinality({i \in 1..Len(r) : r[i] = x})
KeepsNodes == \A p \in ToSet(w.doc) : \E g \in ToSet(World.pieces) :
                /\ p.ends = g.ends.d /\ p.raw = g.types.d /\ p.points.d = g.pts.d
                /\ \A e \in 1..Len(p.ends) : SameBag(Cells(p.con, p.ends)[e], Cells(g.con.d, g.ends.d)[e])
KeepsData == \A p \in ToSet(w.doc) : \A s \in ToSet(p.secs) : \A x \in ToSet(s.arrs) :
               \E g \in ToSet(World.arrs) : x.name = g.name /\ SameBag(x.d, g.a.d)

\* what is refused has no effect; what was written stays as it is
Refused == [][~Last(act') => w' = w]_vars
Behind(p, q) == /\ [p EXCEPT !.secs = <<>>] = [q EXCEPT !.secs = <<>>]
                /\ Len(p.secs) <= Len(q.secs)
                /\ \A i \in 1..Len(p.secs) : /\ p.secs[i].tag = q.secs[i].tag
                                             /\ IsPrefix(p.secs[i].arrs, q.secs[i].arrs)
                                             /\ i < Len(p.secs) => p.secs[i] = q.secs[i]
Grows == [][/\ Len(w'.doc) \in {Len(w.doc), Len(w.doc) + 1}
            /\ \A i \in 1..Len(w.doc) : /\ Behind(w.doc[i], w'.doc[i])
                                        /\ i < Len(w.doc) => w'.doc[i] = w.doc[i]]_vars
\* nothing happens to a file once it is closed
Final == [][~w.open => w' = w]_vars

View == <<w, done>>
Id(x, d) == ToString(<<x.open, d>>)
Edges == IF "EDGES" \in DOMAIN IOEnv
         THEN PrintT("@E " \o Id(w, done) \o " @ " \o ToString(act') \o " @ " \o Id(w', done'))
         ELSE TRUE
==============================================================================
