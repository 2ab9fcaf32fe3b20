----------------------------- MODULE BufferOps ------------------------------
(***************************************************************************)
(* The abstract meaning of the buffered writer of the commit log: what is  *)
(* written arrives in the file, in order and nothing twice; the rest waits *)
(* in the buffer. After a write to the file failed, nothing more is        *)
(* accepted until the writer is reset.                                     *)
(* s = [size, sent, file, bad, stuck]: size of the buffer; the bytes       *)
(* accepted since the last reset; those of them last seen in the file;     *)
(* whether the file may not grow at will; whether a write failed.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Fresh == [size |-> 0, sent |-> <<>>, file |-> <<>>, bad |-> FALSE, stuck |-> FALSE]
Writes == {"bwrite", "bbyte", "brune", "bstring"}
Starts(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* after e everything in all is in the file or waits
Kept(s, e, all) ==
    IF ~Starts(e.file, all) THEN "the file does not hold what was written, in order"
    ELSE IF ~Starts(s.file, e.file) THEN "the file lost something"
    ELSE IF Len(e.file) + e.buffered # Len(all) THEN "something that was written is neither in the file nor in the buffer"
    ELSE IF e.buffered + e.avail # s.size THEN "the buffer does not have its size"
    ELSE ""

\* of what was written, a part may have reached the file
Partly(s, e, all) ==
    IF ~Starts(e.file, all) THEN "the file does not hold what was written, in order"
    ELSE IF ~Starts(s.file, e.file) THEN "the file lost something"
    ELSE ""

Judge(s, e) ==
    IF e.res = "panic" THEN "the call panicked"
    ELSE CASE e.op \in {"bopen", "breset"} ->
                IF e.res # "ok" \/ e.file # <<>> \/ e.buffered # 0 THEN "a new writer is not empty"
                ELSE IF e.total # (IF e.op = "breset" THEN s.size ELSE IF e.size <= 0 THEN 4096 ELSE e.size) THEN "the buffer does not have the size asked for"
                ELSE ""
           [] e.op \in Writes ->
                IF s.stuck THEN IF e.res = "err" THEN "" ELSE "something was accepted after a failure"
                ELSE IF e.res = "err" THEN IF s.bad THEN Partly(s, e, s.sent \o e.data) ELSE "writing failed"
                ELSE IF e.n # Len(e.data) THEN "not everything was accepted"
                ELSE Kept(s, e, s.sent \o e.data)
           [] e.op = "bflush" ->
                IF s.stuck THEN IF e.res = "err" THEN "" ELSE "a flush succeeded after a failure"
                ELSE IF e.res = "err" THEN IF s.bad THEN Partly(s, e, s.sent) ELSE "flushing failed"
                ELSE IF e.file # s.sent THEN "something is missing in the file after a flush"
                ELSE Kept(s, e, s.sent)

After(s, e) ==
    CASE e.op = "bopen" -> [Fresh EXCEPT !.size = IF e.size <= 0 THEN 4096 ELSE e.size, !.bad = e.bad]
      [] e.op = "breset" -> [Fresh EXCEPT !.size = s.size, !.bad = e.bad]
      [] e.res = "err" -> [s EXCEPT !.stuck = TRUE]
      [] e.op \in Writes -> [s EXCEPT !.sent = @ \o e.data, !.file = e.file]
      [] OTHER -> [s EXCEPT !.file = e.file]
=============================================================================
