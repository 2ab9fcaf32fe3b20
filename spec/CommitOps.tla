----------------------------- MODULE CommitOps ------------------------------
(***************************************************************************)
(* The abstract meaning of the commit log: the graph that results from the *)
(* logged changes, one after another. The files the log is kept in, their  *)
(* switching, condensing and combining do not show.                        *)
(* s = [g, ops, whole]: the graph; the changes with the file offset after  *)
(* each; whether they are all in one file.                                 *)
(* A graph is [node : id -> [level, links], ep, lvl, tomb].                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Empty == [x \in {} |-> x]
NoGraph == [node |-> Empty, ep |-> 0, lvl |-> 0, tomb |-> {}]
Fresh == [g |-> NoGraph, ops |-> <<>>, whole |-> TRUE]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Logged == {"node", "ep", "link", "replace", "tomb", "untomb", "clear", "clearat", "del", "reset"}

Apply(g, e) ==
    CASE e.op = "node" -> [g EXCEPT !.node = Put(@, e.id, [level |-> e.level, links |-> [i \in 1..(e.level + 1) |-> <<>>]])]
      [] e.op = "ep" -> [g EXCEPT !.ep = e.id, !.lvl = e.level]
      [] e.op = "link" -> [g EXCEPT !.node[e.id].links[e.level + 1] = Append(@, e.to)]
      [] e.op = "replace" -> [g EXCEPT !.node[e.id].links[e.level + 1] = e.tos]
      [] e.op = "clearat" -> [g EXCEPT !.node[e.id].links[e.level + 1] = <<>>]
      [] e.op = "clear" -> [g EXCEPT !.node[e.id].links = [i \in DOMAIN @ |-> <<>>]]
      [] e.op = "del" -> [g EXCEPT !.node = [x \in DOMAIN @ \ {e.id} |-> @[x]]]
      [] e.op = "tomb" -> [g EXCEPT !.tomb = @ \cup {e.id}]
      [] e.op = "untomb" -> [g EXCEPT !.tomb = @ \ {e.id}]
      [] e.op = "reset" -> [g EXCEPT !.node = Empty, !.ep = 0, !.lvl = 0]

\* a restored graph: nodes is a sequence of [id, level, links]
Same(g, r) ==
    LET ids == {r.nodes[i].id : i \in DOMAIN r.nodes} IN
    IF ids # DOMAIN g.node THEN "the nodes restored are not those logged"
    ELSE IF \E i \in DOMAIN r.nodes : r.nodes[i].level # g.node[r.nodes[i].id].level THEN "a node is restored on another level"
    ELSE IF \E i \in DOMAIN r.nodes : r.nodes[i].links # g.node[r.nodes[i].id].links THEN "a node is restored with other links"
    ELSE IF r.ep # g.ep \/ r.lvl # g.lvl THEN "another entrypoint is restored"
    ELSE IF {r.tomb[i] : i \in DOMAIN r.tomb} # g.tomb THEN "other tombstones are restored"
    ELSE ""

\* the changes complete within the first n bytes
Prefix(s, n) == SelectSeq(s.ops, LAMBDA o : o.off <= n)
Cut(s, e) ==
    LET p == Prefix(s, e.at)
        g == FoldLeft(Apply, NoGraph, p)
        len == IF p = <<>> THEN 0 ELSE p[Len(p)].off
    IN  IF e.fatal THEN "a log that ends abruptly cannot be read"
        ELSE IF e.valid # len THEN "the length of the readable part is wrong"
        ELSE Same(g, e.got)

Judge(s, e) ==
    IF e.res = "panic" THEN "the call panicked"
    ELSE IF e.res = "err" THEN "a call failed"
    ELSE CASE e.op = "restore" -> Same(s.g, e.got)
           [] e.op = "cut" -> Cut(s, e)
           [] OTHER -> ""

After(s, e) ==
    CASE e.op \in Logged -> [s EXCEPT !.g = Apply(@, e), !.ops = IF s.whole THEN Append(@, e) ELSE @]
      [] e.op \in {"switch", "pause"} -> [s EXCEPT !.whole = FALSE, !.ops = <<>>]
      [] OTHER -> s
=============================================================================
