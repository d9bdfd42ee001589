------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace checking with a total verdict.  A trace specification M extends   *)
(* this module's idiom: it defines                                          *)
(*    St0            the abstract state before the first event             *)
(*    Upd(st, e)     the abstract state after event e                       *)
(*    Fails(st, e)   the set of names of the clauses that e violates in st  *)
(* and instantiates Go below.  Every event of the trace file (environment  *)
(* variable TRACE, ndjson) is consumed; a failing event is reported as a   *)
(* line "@!{...}" naming the line and the clauses, and checking goes on so  *)
(* that the rest of the trace is examined too.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(i, f) ==
    f = {} \/ PrintT("@!" \o ToJson([line |-> i, clauses |-> SetToSeq(f)]))

(* {} if ok, {name} otherwise: the building block of Fails. *)
Clause(name, ok) == IF ok THEN {} ELSE {name}

Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
