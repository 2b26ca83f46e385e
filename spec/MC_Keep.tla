------------------------------- MODULE MC_Keep -------------------------------
(***************************************************************************)
(* C34: what a library keeps of the values it is given and makes.  Users     *)
(* make calls on ever new values, hold some results for a while and drop     *)
(* them.  A value is alive while the user or the library holds it.          *)
(*   VARIANT   none      the library keeps nothing                         *)
(*             recent    it keeps the last two answers                      *)
(*             table     it keeps answers in a table that is emptied when    *)
(*                       full                                              *)
(*             weak      it keeps answers as long as the user does          *)
(*             all       it keeps all answers                              *)
(*             failed    it keeps what calls that failed were given         *)
(*             holder    a value in use keeps an answer for every call       *)
(* none, recent, table and weak satisfy Inv: apart from what the user holds *)
(* at most Bound values are alive, however many calls are made.  The others *)
(* are the negative controls.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, IOUtils
V == IOEnv.VARIANT
Steps == atoi(IOEnv.STEPS)
Bound == 3
VARIABLES next, held, kept, order, n
vars == <<next, held, kept, order, n>>
Init == next = 1 /\ held = {} /\ kept = {} /\ order = <<>> /\ n = 0
Last2(s) == IF Len(s) > 2 THEN SubSeq(s, Len(s) - 1, Len(s)) ELSE s
Range(s) == {s[i] : i \in DOMAIN s}
Call(ok, hold) ==
    /\ next' = next + 1
    /\ held' = IF ok /\ hold THEN held \cup {next} ELSE held
    /\ Cardinality(held') <= 2
    /\ order' = IF V = "recent" /\ ok THEN Last2(Append(order, next)) ELSE <<>>
    /\ kept' = CASE V = "recent" -> Range(order')
                 [] V = "table" -> IF ok THEN (IF Cardinality(kept) = Bound THEN {next} ELSE kept \cup {next}) ELSE kept
                 [] V = "weak" -> IF ok THEN (kept \cup {next}) \cap held' ELSE kept
                 [] V = "all" -> IF ok THEN kept \cup {next} ELSE kept
                 [] V = "failed" -> IF ok THEN kept ELSE kept \cup {next}
                 [] V = "holder" -> IF held # {} THEN kept \cup {next} ELSE {}
                 [] OTHER -> kept
Drop(v) == held' = held \ {v} /\ kept' = (IF V = "weak" THEN kept \ {v} ELSE IF V = "holder" /\ held' = {} THEN {} ELSE kept) /\ UNCHANGED <<next, order>>
Next == n < Steps /\ n' = n + 1 /\ ((\E ok, hold \in BOOLEAN : Call(ok, hold)) \/ \E v \in held : Drop(v))
Inv == Cardinality(kept \ held) <= Bound
=============================================================================
