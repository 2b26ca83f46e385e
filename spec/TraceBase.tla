------------------------------ MODULE TraceBase ------------------------------
(* Reading recorded traces and reporting verdicts: shared by every T_* module. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Join(s) == IF s = <<>> THEN "" ELSE
           LET RECURSIVE J(_) J(i) == IF i = Len(s) THEN s[i] ELSE s[i] \o "," \o J(i + 1) IN J(1)

\* pairs <<clause name, holds>>; the names of those that do not hold
Broken(pairs) == LET bad == SelectSeq(pairs, LAMBDA x : ~x[2])
                 IN [i \in 1..Len(bad) |-> bad[i][1]]

Report(l, bad) == IF bad = <<>> THEN TRUE ELSE PrintT("FAIL|" \o ToString(l) \o "|" \o Join(bad))
Count(reg, b) == IF b THEN TLCSet(reg, TLCGet(reg) + 1) ELSE TRUE
Judge(l, bad, nt) == Report(l, bad) /\ Count(1, nt)
Done(n) == PrintT("DONE|" \o ToString(n) \o "|" \o ToString(TLCGet(1)))
=============================================================================
