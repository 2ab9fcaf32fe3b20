------------------------------ MODULE StoreGen ------------------------------
(***************************************************************************)
(* Behaviours of the document store, drawn at random by TLC (-simulate)    *)
(* from the state machine whose state is the abstract store and whose      *)
(* steps are requests applied with After. Each finished behaviour is       *)
(* printed as one JSON schedule, which the driver replays into FaVe.       *)
(* The environment's choices (vectors, embeddings, faults, restarts) are   *)
(* part of the behaviour.                                                  *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils, Naturals

CONSTANTS Scripts,   \* set of sequences of requests, one of which the behaviour begins with
          Limits,    \* limits a search may have, repetition is weight
          Mix,       \* requests to draw from, repetition is weight
          Steps,     \* requests per behaviour
          Colls,     \* collection names
          MaxBatch,  \* documents per batch at most
          MinBatch,
          IdPool,    \* number of document ids
          MaxNodes,  \* do not grow a collection beyond this many vectors
          TextShare, \* percentage of documents without a vector of their own
          BadShare,  \* percentage of batches with a flaw
          FreeTitles,
          ListGets,  \* TRUE: look documents up by entries of lists and maps, too (those of current documents or none:
                     \* the storage library keeps the entries a replaced document had)
          Wide,      \* TRUE: vectors of four dimensions instead of three
          Dims,      \* dimensions a collection may start with ({}: the usual one)
          Audit      \* 0: none, 1: read everything at the end, 2: and again after a restart

VARIABLES s, hist, emb, tick, dirty,
          plan   \* the requests to begin with

vars == <<s, hist, emb, tick, dirty, plan>>

Pick(S) == RandomElement(S)
PickSeq(q) == q[RandomElement(1..Len(q))]
Chance(pct) == RandomElement(1..100) <= pct

Perms3(a, b, c) == {<<a,b,c>>, <<a,c,b>>, <<b,a,c>>, <<b,c,a>>, <<c,a,b>>, <<c,b,a>>}
Signs(v) == {<<i * v[1], j * v[2], k * v[3]>> : i \in {-1,1}, j \in {-1,1}, k \in {-1,1}}
\* all integer vectors of length 9 in space, and the zero vector
Space == UNION {UNION {Signs(p) : p \in Perms3(x[1], x[2], x[3])} :
                 x \in {<<9,0,0>>, <<8,4,1>>, <<7,4,4>>, <<6,6,3>>}}
Plane == {<<9,0>>, <<0,9>>, <<-9,0>>, <<0,-9>>}
ASSUME N = 81 /\ \A v \in Space \cup Plane : Dot(v, v) = N

\* all integer vectors of length 9 in four dimensions, for large collections
Space4 == {v \in (-9..9) \X (-9..9) \X (-9..9) \X (-9..9) : v[1]*v[1] + v[2]*v[2] + v[3]*v[3] + v[4]*v[4] = N}
Seq4 == SetToSeq(Space4)


\* a vector for collection c of store t: of its dimension, or of any if it has none yet
DimFor(t, c) == IF c \in DOMAIN t /\ t[c].dim # 0 THEN t[c].dim ELSE IF Dims = {} THEN (IF Wide THEN 4 ELSE 3) ELSE Pick(Dims)
Axes(d) == {v \in (IF d = 4 THEN Space4 ELSE IF d = 2 THEN Plane ELSE Space) : Axis(v)}
AxisOfDim(d) == IF Chance(12) THEN SubSeq(<<0, 0, 0, 0>>, 1, d) ELSE Pick(Axes(d))
VecOfDim(d) == IF Chance(8) THEN AxisOfDim(d) ELSE IF d = 4 THEN PickSeq(Seq4) ELSE IF d = 2 THEN (IF Chance(5) THEN <<0,0>> ELSE Pick(Plane)) ELSE IF Chance(3) THEN <<0,0,0>> ELSE Pick(Space)
OtherDim(c) == LET d == IF c.dim = 0 THEN 3 ELSE c.dim IN VecOfDim(Pick({2, 3, 4} \ {d}))

Words == <<"alpha", "beta", "gamma", "delta", "omega", "x", "alphabet">>
Text(x) == IF Chance(40) THEN PickSeq(Words)
        ELSE IF Chance(60) THEN PickSeq(Words) \o " " \o PickSeq(Words)
        ELSE PickSeq(Words) \o " " \o PickSeq(Words) \o " " \o PickSeq(Words)

\* distinct values with common prefixes, so that a lookup has close neighbours
Letters == <<"a","A","b","B","c">>
RECURSIVE Name(_)
Name(n) == IF n = 0 THEN "" ELSE Name(n \div 5) \o Letters[(n % 5) + 1]
RECURSIVE Pad(_, _)
Pad(n, w) == IF w = 0 THEN "" ELSE Pad(n \div 5, w - 1) \o Letters[(n % 5) + 1]
\* FreeTitles: one value may begin with another. Otherwise all are of one
\* length, because the storage library cannot replace such values.
Plain(n) == IF FreeTitles THEN Name(n) ELSE Pad(n, 6)
\* characters that mean something to the lookup, to a pattern or to a URL
Marks == <<"", "", "+", "=", "(", "", "?", "$", "<", "", "*", ">", "[", "", "|", "!", "\\", "", " ", "=>", ".", "", "%", "&", "/", "", "^", "#", "\"", "", "++", "!=", "{", "", "<=", ":", "'", "", "==", "~", "_", "", ")", "]", "}", ",", ";", "@">>
Mark(n) == Marks[(n % Len(Marks)) + 1]
Title(n) == "t" \o Mark(n) \o Plain(n)
\* the entries of lists and maps: no operators, which the storage library takes for its own
Entry(n) == "t" \o (IF n % 6 \in {0, 1} THEN PickSeq(<<"+", "(", "?", "*", "[", "|", " ", ".", "&">>) ELSE "") \o Plain(n)
\* ids likewise
Digits == <<"0","1","2","3","4","5","6","7","8","9">>
RECURSIVE Dec(_, _)
Dec(n, w) == IF w = 0 THEN "" ELSE Dec(n \div 10, w - 1) \o Digits[(n % 10) + 1]
Id(i) == "d" \o Mark(i) \o (IF FreeTitles THEN ToString(i) ELSE Dec(i, 5))

PropLists == <<<<"body">>, <<"body">>, <<"body", "note">>, <<"note", "body">>, <<"title">>, <<"nosuch">>>>

RECURSIVE TextOf(_, _)
TextOf(p, props) ==
    IF props = <<>> THEN ""
    ELSE (IF Head(props) \in DOMAIN p THEN p[Head(props)] \o " " ELSE "") \o TextOf(p, Tail(props))

Idx(x) == IF Chance(70) THEN ("title" :> "string") @@ ("num" :> "number")
       ELSE IF Chance(50) THEN ("title" :> "string") ELSE ("num" :> "number")

Lists(x) == (IF Chance(15) THEN ("tags" :> "list") ELSE Empty) @@ (IF Chance(15) THEN ("attrs" :> "map") ELSE Empty)
FullIdx(i) == i @@ ("hnswId" :> "number") @@ ("id" :> "string")

Scales == 1..13

\* the i-th document of a batch; n is a fresh number
GenDoc(n, props, i, dim, idx) ==
    LET p == ("title" :> Title(n)) @@ ("num" :> n) @@ ("rev" :> n)
             @@ (IF Chance(85) THEN ("body" :> Text(n)) ELSE Empty)
             @@ (IF Chance(30) THEN ("note" :> Text(n)) ELSE Empty)
             @@ (IF "tags" \in DOMAIN idx \/ Chance(5) THEN ("tags" :> IF Chance(60) THEN <<Entry(n)>> ELSE <<Entry(n), "z" \o Entry(n)>>) ELSE Empty)
             @@ (IF "attrs" \in DOMAIN idx \/ Chance(5) THEN ("attrs" :> [k |-> Entry(n)]) ELSE Empty)
             @@ (IF Chance(30) THEN ("extra" :> "#" \o ToString(Pick(1..20))) ELSE Empty)
        k == IF dirty = {} THEN Pick(1..IdPool) ELSE Pick({j \in 1..IdPool : Id(j) \notin dirty})
    IN  [id |-> Id(k), p |-> p, sc |-> Pick(Scales), bad |-> "",
         own |-> ~Chance(TextShare), vec |-> VecOfDim(dim), alt |-> IF Wide THEN PickSeq(Seq4) ELSE Pick(Space)]

\* decide what the document is indexed by, given the embeddings so far
Settle(d, props, em) ==
    IF d.own THEN [id |-> d.id, p |-> d.p, kind |-> "vec", v |-> d.vec, sc |-> d.sc, bad |-> ""]
    ELSE LET t == TextOf(d.p, props) IN
         IF t = "" THEN [id |-> d.id, p |-> d.p, kind |-> "none", v |-> <<>>, sc |-> 1, bad |-> ""]
         ELSE [id |-> d.id, p |-> d.p, kind |-> "text", v |-> em[t], sc |-> 1, bad |-> ""]

NewTexts(ds, props, em) ==
    LET todo == SelectSeq(ds, LAMBDA d : ~d.own /\ TextOf(d.p, props) # "")
    IN  FoldLeft(LAMBDA f, d : IF TextOf(d.p, props) \in DOMAIN f THEN f ELSE Put(f, TextOf(d.p, props), d.alt), em, todo)

BadVec == <<"type", "empty", "inf", "nan", "string", "element", "unjson">>
\* without one of its fields; what it is indexed by stays the same
Without(d, f, props) ==
    [d EXCEPT !.p = Del(d.p, f), !.kind = IF @ = "text" /\ \E i \in DOMAIN props : props[i] = f THEN "vec" ELSE @]
\* a flaw in a batch: one document becomes unusable, or has another dimension,
\* or lacks an indexed field or its id
SpoilWith(docs, i, how, c, bv, props) ==
    LET d == docs[i] IN
    CASE how = "vec" -> [docs EXCEPT ![i] = [d EXCEPT !.kind = "bad", !.bad = bv, !.v = <<>>]]
      [] how = "dim" -> [docs EXCEPT ![i] = [d EXCEPT !.kind = "vec", !.v = OtherDim(c)]]
      [] how = "dims" -> LET o == OtherDim(c) IN \* all vectors agree with each other, but not with the collection
                         [k \in DOMAIN docs |-> IF docs[k].kind = "none" THEN docs[k] ELSE [docs[k] EXCEPT !.kind = "vec", !.v = o]]
      [] how = "nonstring" -> [docs EXCEPT ![i] = [d EXCEPT !.kind = "bad", !.bad = "nonstring", !.v = <<>>]]
      [] how = "noprops" -> [docs EXCEPT ![i] = [d EXCEPT !.kind = "bad", !.bad = "noprops", !.v = <<>>]]
      [] how = "field" -> [docs EXCEPT ![i] = Without(d, Pick(DOMAIN c.idx \ Implicit), props)]
      [] how = "ftype" -> [docs EXCEPT ![i] = [d EXCEPT !.bad = "index-" \o Pick(DOMAIN c.idx \ Implicit), !.kind = IF @ = "text" THEN "vec" ELSE @]]
      [] how = "id" -> [docs EXCEPT ![i] = [d EXCEPT !.id = ""]]
      [] OTHER -> docs

RawKinds == <<"blankcreate", "noindexes", "indextype", "nullindex", "blankadd", "nodocs", "noprops", "baduuid",
              "scalarprops", "nulldoc", "json", "jsoncoll", "nobody", "blanktext", "blankname", "novector",
              "blankvname", "vectortype", "limittype", "getmissing", "getblank", "noroute", "method">>

VFaults == <<"500", "404", "garbage", "emptyvec", "noobject", "hangup", "cut", "element", "huge", "nokey">>

--------------------------------------------------------------------------
AColl == IF DOMAIN s # {} /\ ~Chance(6) THEN Pick(DOMAIN s) ELSE Pick(Colls)
Room(c) == IF c \in DOMAIN s THEN MaxNodes - s[c].nodes ELSE MaxBatch

Req(kind) ==
    CASE kind = "create" ->
           \E c \in {Pick(Colls)} : \E i \in {TLCEval(Idx(tick) @@ Lists(tick))} :
             LET o == [op |-> "create", coll |-> c, idx |-> FullIdx(i)]
             IN  hist' = Append(hist, o) /\ s' = After(s, o) /\ UNCHANGED <<emb, tick, dirty>>
      [] kind = "delete" ->
           \E c \in {AColl} :
             LET o == [op |-> "delete", coll |-> c]
             IN  hist' = Append(hist, o) /\ s' = After(s, o) /\ UNCHANGED <<emb, tick, dirty>>
      [] kind \in {"restart", "list"} ->
           hist' = Append(hist, [op |-> kind]) /\ UNCHANGED <<s, emb, tick, dirty>>
      [] kind = "raw" ->
           \E c \in {AColl} :
             hist' = Append(hist, [op |-> "raw", coll |-> c, kind |-> PickSeq(RawKinds)]) /\ UNCHANGED <<s, emb, tick, dirty>>
      [] kind \in {"add", "wadd", "vadd", "cadd"} ->
           \E c \in {AColl} :
           \E n \in {Min({Pick(MinBatch..MaxBatch), Max({0, Room(c)})})} :
           \E props \in {PickSeq(PropLists)} : \E dim \in {DimFor(s, c)} :
           \E raw \in {TLCEval([i \in 1..n |-> GenDoc(tick + i, props, i, dim, IF c \in DOMAIN s THEN s[c].idx ELSE Empty)])} :
           \E vf \in {IF kind = "vadd" THEN PickSeq(VFaults) ELSE ""} :
           \E one \in {vf # "" /\ Chance(50)} : \* the service fails for one of the texts only
             LET em == NewTexts(raw, props, emb)
                 ds == [i \in 1..n |-> Settle(raw[i], props, em)]
             IN
             \E spoilt \in {kind = "add" /\ n > 0 /\ c \in DOMAIN s /\ Chance(BadShare)} :
             \E j \in {IF n = 0 THEN 1 ELSE Pick(1..n)} : \E bv \in {PickSeq(BadVec)} :
             \E how \in {PickSeq(<<"vec", "vec", "dim", "dims", "dims", "nonstring", "noprops", "field", "ftype", "ftype", "id">>)} :
             \E wf \in {IF kind = "wadd" THEN Pick(1..(8 + 5 * n)) ELSE 0} :
             LET bad == IF spoilt THEN SpoilWith(ds, j, how, s[c], bv, props) ELSE ds
                 texts == {i \in 1..n : ds[i].kind = "text"}
                 last == IF one /\ texts # {} THEN TextOf(ds[Max(texts)].p, props) ELSE ""
                 fin == IF vf = "" THEN bad
                        ELSE [i \in 1..n |-> IF bad[i].kind = "text" /\ last \in {"", TextOf(bad[i].p, props)} THEN [bad[i] EXCEPT !.kind = "bad", !.bad = "vfault", !.v = <<>>] ELSE bad[i]]
             IN
             \E docs \in {TLCEval(fin)} :
             LET o == [op |-> "add", coll |-> c, props |-> props, docs |-> docs, vfault |-> vf, vtext |-> last, wfault |-> wf,
                       crash |-> IF kind = "cadd" THEN Pick(1..(8 + 5 * n)) ELSE 0]
             IN  /\ hist' = IF kind = "cadd" THEN hist \o <<o, [op |-> "restart"]>> ELSE Append(hist, o)
                 /\ s' = After(s, o @@ ("res" :> IF wf # 0 THEN "err" ELSE IF kind = "cadd" THEN "lost" ELSE "ok"))
                 /\ emb' = em
                 /\ tick' = tick + n
                 /\ dirty' = IF wf # 0 THEN dirty \cup {docs[i].id : i \in 1..n} ELSE dirty
      [] kind = "searchv" ->
           \E c \in {AColl} : \E edge \in {Chance(8)} :
           \E q \in {IF edge THEN AxisOfDim(DimFor(s, c)) ELSE VecOfDim(IF Chance(4) THEN Pick({2, 3, 4}) ELSE DimFor(s, c))} :
           \E mx \in {IF edge THEN PickSeq(<<0, N, N, 2 * N>>) ELSE IF Chance(50) THEN 2 * N ELSE Pick(0..(2*N))} : \E lim \in {PickSeq(Limits)} :
             /\ hist' = Append(hist, [op |-> "search", coll |-> c, q |-> q, sc |-> Pick(Scales), text |-> "", vf |-> "", vfault |-> FALSE, max |-> mx, edge |-> edge, limit |-> lim])
             /\ UNCHANGED <<s, emb, tick, dirty>>
      [] kind \in {"searcht", "vsearch"} ->
           \E c \in {AColl} : \E t \in {IF emb # Empty /\ Chance(60) THEN Pick(DOMAIN emb) ELSE Text(tick)} : \E alt \in {IF Wide THEN PickSeq(Seq4) ELSE Pick(Space)} :
           \E mx \in {IF Chance(50) THEN 2 * N ELSE Pick(0..(2*N))} : \E lim \in {PickSeq(Limits)} :
           \E vf \in {IF kind = "vsearch" THEN PickSeq(VFaults) ELSE ""} :
             /\ emb' = IF t \in DOMAIN emb THEN emb ELSE Put(emb, t, alt)
             /\ hist' = Append(hist, [op |-> "search", coll |-> c, q |-> emb'[t], sc |-> 1, text |-> t, vf |-> vf, vfault |-> (vf # ""), max |-> mx, edge |-> FALSE, limit |-> lim])
             /\ UNCHANGED <<s, tick, dirty>>
      [] kind = "get" ->
           \E c \in {AColl} : \E f \in {IF ListGets /\ c \in DOMAIN s /\ Chance(50) THEN Pick(DOMAIN s[c].idx \ {"hnswId"}) ELSE PickSeq(<<"id", "id", "title", "num">>)} :
           LET docs == IF c \in DOMAIN s THEN s[c].docs ELSE Empty
               cand == {id \in DOMAIN docs : f \in DOMAIN docs[id].p}
           IN
           \E odd \in {IF f # "num" /\ Chance(15) THEN PickSeq(<<" ", "  ", "x", "trail", "lead">>) ELSE ""} :
           \E base \in {IF f = "id" THEN (IF docs # Empty /\ Chance(70) THEN Pick(DOMAIN docs) ELSE Id(Pick(1..(12 * IdPool))))
                       ELSE IF cand # {} /\ Chance(70)
                       THEN LET v == docs[Pick(cand)].p[f] IN CASE f = "tags" -> PickSeq(v) [] f = "attrs" -> "k:" \o v.k [] OTHER -> v
                       ELSE LET n == IF f \in {"tags", "attrs"} THEN tick + Pick(1..40) ELSE Pick(0..Max({40, tick + 5})) IN
                            CASE f = "title" -> Title(n) [] f = "tags" -> Entry(n) [] f = "attrs" -> "k:" \o Entry(n) [] OTHER -> n} :
           LET val == CASE odd = "" -> base [] odd = "lead" -> " " \o base [] odd = "trail" -> base \o " " [] OTHER -> base \o odd
           IN
             /\ hist' = Append(hist, [op |-> "get", coll |-> c, field |-> f, val |-> val])
             /\ UNCHANGED <<s, emb, tick, dirty>>

Init == s = Empty /\ hist = <<>> /\ emb = Empty /\ tick = 0 /\ dirty = {} /\ plan = <<"choose">>

Step == /\ Len(hist) < Steps
        /\ IF plan # <<>>
           THEN \E pl \in {IF plan = <<"choose">> THEN Pick(Scripts) ELSE plan} : Req(Head(pl)) /\ plan' = Tail(pl)
           ELSE UNCHANGED plan /\ \E k \in {PickSeq(Mix)} : Req(k)

Embs == LET d == SetToSeq(DOMAIN emb) IN [i \in 1..Len(d) |-> [text |-> d[i], v |-> emb[d[i]]]]

\* read all there is: the list, every collection from some direction, documents by id
AuditColl(c) ==
    LET ids == SetToSeq(DOMAIN s[c].docs)
        n == Min({Len(ids), 12})
        \* a window of the documents
        from == IF Len(ids) = 0 THEN 0 ELSE Pick(1..Len(ids))
        q == VecOfDim(DimFor(s, c))
    IN  <<[op |-> "search", coll |-> c, q |-> q, sc |-> 1, text |-> "", vf |-> "", vfault |-> FALSE, max |-> 2 * N, edge |-> FALSE, limit |-> 0]>>
        \o [i \in 1..n |-> [op |-> "get", coll |-> c, field |-> "id", val |-> ids[((from + i) % Len(ids)) + 1]]]
ReadAll(x) ==
    LET cs == SetToSeq(DOMAIN s)
    IN  <<[op |-> "list"]>> \o FoldLeft(LAMBDA acc, c : acc \o AuditColl(c), <<>>, cs)
Final == IF Audit = 0 THEN <<>>
         ELSE IF Audit = 1 THEN ReadAll(1)
         ELSE ReadAll(1) \o <<[op |-> "restart"]>> \o ReadAll(2)

Emit == /\ Len(hist) >= Steps /\ Last(hist).op # "end"
        /\ PrintT("SCHED " \o ToJson([events |-> hist \o Final, emb |-> Embs]))
        /\ hist' = Append(hist, [op |-> "end"])
        /\ UNCHANGED <<s, emb, tick, dirty, plan>>

Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
