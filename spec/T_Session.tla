------------------------------ MODULE T_Session ------------------------------
(***************************************************************************)
(* C11: a session of arbitrary calls over a pool of objects that share     *)
(* parts.  After every call every object of the pool is looked at again;   *)
(* only the track that was added to may differ, and it as Tracks says.     *)
(* New objects enter the pool with the value they were first seen with.    *)
(***************************************************************************)
EXTENDS TraceBase, Tracks
VARIABLES l, pool
\* the value of an object as observed: order among simultaneous notes is not part of a track's value
Val(o) == IF o.t = "track" THEN [t |-> "track", sig |-> o.sig, ents |-> [i \in 1..Len(o.l) |-> EntryOf(o.l[i])]] ELSE o
Same(v, o) ==
    IF v.t # o.t THEN FALSE
    ELSE IF v.t = "track" THEN v.sig = o.sig /\ SameBag(v.ents, Val(o).ents)
    ELSE v = o
NotesOf(s) == [i \in 1..Len(s) |-> NoteOf(s[i])]
Added(c) == IF c.add.t = "none" THEN pool
            ELSE LET t == pool[c.add.id] IN
                 [pool EXCEPT ![c.add.id] = IF c.add.where.t = "none"
                     THEN AppendNotes(t, NotesOf(c.add.notes)) ELSE AddAt(t, NotesOf(c.add.notes), Canon(c.add.where))]
Line(c) ==
    IF c.op = "reset" THEN pool' = <<>> /\ Judge(l, <<>>, FALSE)
    ELSE LET exp == Added(c)
             bad == {i \in DOMAIN exp : ~Same(exp[i], c.seen[i])}
             new == [i \in 1..(Len(c.seen) - Len(exp)) |-> Val(c.seen[Len(exp) + i])]
         IN /\ pool' = [i \in DOMAIN exp |-> IF i \in bad THEN Val(c.seen[i]) ELSE exp[i]] \o new
            /\ Judge(l, IF bad = {} THEN <<>> ELSE <<c.op \o " changed an existing " \o exp[Min(bad)].t>>, Len(exp) > 3)
Init == l = 1 /\ pool = <<>> /\ TLCSet(1, 0)
Next == \/ l <= Len(Trace) /\ Line(Trace[l]) /\ l' = l + 1
        \/ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED pool
=============================================================================
