------------------------------ MODULE MC_Process ------------------------------
(***************************************************************************)
(* C31: processes of different kinds take the same program in lockstep.     *)
(* A process differs from another in whether assertions are executed, in    *)
(* the order in which it enumerates a set, in what was called in it before, *)
(* and in whether texts of documentation are there.  A program adds numbers *)
(* (of which 3 has to be refused) to a collection and asks for its list and *)
(* for the largest.                                                        *)
(*   VARIANT   guard    refusals are made by conditions, lists are sorted   *)
(*             assert   refusals are made by assertions                     *)
(*             set      the list comes in the order of a set               *)
(*             first    the answer to the first question is kept for all    *)
(*                      collections of the process                         *)
(*             doc      the answer is taken from a text of documentation    *)
(* guard satisfies Inv; the others are the negative controls.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, IOUtils
V == IOEnv.VARIANT
Steps == atoi(IOEnv.STEPS)
N == 0..3
Up == <<0, 1, 2, 3>>
Other == <<2, 0, 3, 1>>
Kinds == [asserts : BOOLEAN, order : {Up, Other}, past : {<<>>, <<1>>}, docs : BOOLEAN]
Procs == {k \in Kinds : k.asserts \/ ~k.docs \/ k.order = Up}
VARIABLES bag, kept, said, n
vars == <<bag, kept, said, n>>
Init == bag = [k \in Procs |-> {}] /\ kept = [k \in Procs |-> k.past] /\ said = [k \in Procs |-> <<>>] /\ n = 0
InOrder(s, o) == SelectSeq(o, LAMBDA x : x \in s)
Say(f) == said' = [k \in Procs |-> Append(said[k], f[k])]
Refuses(k, x) == x = 3 /\ (V # "assert" \/ k.asserts)
Add(x) ==
    /\ bag' = [k \in Procs |-> IF Refuses(k, x) THEN bag[k] ELSE bag[k] \cup {x}]
    /\ Say([k \in Procs |-> IF Refuses(k, x) THEN <<9>> ELSE <<>>])
    /\ UNCHANGED kept
List ==
    /\ Say([k \in Procs |-> InOrder(bag[k], IF V = "set" THEN k.order ELSE Up)])
    /\ UNCHANGED <<bag, kept>>
Largest ==
    LET a(k) == IF bag[k] = {} THEN <<>> ELSE <<Max(bag[k])>>
        b(k) == IF V = "first" /\ kept[k] # <<>> THEN kept[k] ELSE IF V = "doc" /\ ~k.docs THEN <<>> ELSE a(k) IN
    /\ Say([k \in Procs |-> b(k)])
    /\ kept' = [k \in Procs |-> b(k)]
    /\ UNCHANGED bag
Next == n < Steps /\ n' = n + 1 /\ ((\E x \in N : Add(x)) \/ List \/ Largest)
Inv == \A k, j \in Procs : said[k] = said[j] /\ bag[k] = bag[j]
=============================================================================
