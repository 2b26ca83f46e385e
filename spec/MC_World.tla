------------------------------- MODULE MC_World -------------------------------
(***************************************************************************)
(* C33: calls and the world around them.  A call is a list of effects, may  *)
(* fail at any of them, and has to leave every part of the world as it      *)
(* found it, but for what it is given.  A draw reads the random state and    *)
(* moves it on.                                                             *)
(*   VARIANT   ok        drawing draws, writing writes, the others do nothing *)
(*             restored  a folder entered and left again, on failure too     *)
(*             ties      writing draws                                      *)
(*             private   draws from a state of its own                      *)
(*             enter     the folder is left again only if nothing fails      *)
(*             temp      a file beside the output, removed at the end        *)
(*             context   a setting of the process raised and put back at the end *)
(*             say       something printed on failure                       *)
(* ok and restored satisfy Inv; the others are the negative controls.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, IOUtils
V == IOEnv.VARIANT
Steps == atoi(IOEnv.STEPS)
Parts == {"random", "folder", "disk", "settings", "said", "output"}
VARIABLES world, kind, before, call, answer, own, answers, failed, n
vars == <<world, before, call, answer, own, answers, failed, n>>
Kinds == {"ask", "rand", "write"}
Effects(k) ==
    CASE k = "ask" -> IF V = "context" THEN <<"raise", "work", "lower">> ELSE <<"work">>
      [] k = "rand" -> <<"draw", "draw">>
      [] k = "write" -> CASE V = "ties" -> <<"draw", "emit">>
                          [] V \in {"enter", "restored"} -> <<"enter", "emit", "leave">>
                          [] V = "temp" -> <<"make", "emit", "remove">>
                          [] OTHER -> <<"emit">>
Allowed(k) == CASE k = "ask" -> {} [] k = "rand" -> {"random"} [] k = "write" -> {"output"}
Idle == [k |-> "none", at |-> 0]
Init == /\ world = [p \in Parts |-> 0] /\ before = world /\ call = Idle /\ answer = <<>> /\ own = 0 /\ answers = {} /\ failed = FALSE /\ n = 0
Begin(k) ==
    /\ call = Idle /\ call' = [k |-> k, at |-> 1] /\ before' = world /\ answer' = <<>> /\ failed' = FALSE
    /\ UNCHANGED <<world, own, answers>>
\* others put the random state back to where it was
Seed ==
    /\ call = Idle /\ world.random > 0 /\ world' = [world EXCEPT !.random = 0] /\ before' = world'
    /\ UNCHANGED <<call, answer, own, answers, failed>>
Do(e) ==
    /\ world' = CASE e = "draw" -> IF V = "private" THEN world ELSE [world EXCEPT !.random = @ + 1]
                  [] e = "emit" -> [world EXCEPT !.output = @ + 1]
                  [] e = "enter" -> [world EXCEPT !.folder = 1]
                  [] e = "leave" -> [world EXCEPT !.folder = 0]
                  [] e = "make" -> [world EXCEPT !.disk = 1]
                  [] e = "remove" -> [world EXCEPT !.disk = 0]
                  [] e = "raise" -> [world EXCEPT !.settings = 1]
                  [] e = "lower" -> [world EXCEPT !.settings = 0]
                  [] OTHER -> world
    /\ answer' = IF e = "draw" THEN Append(answer, IF V = "private" THEN own ELSE world.random) ELSE answer
    /\ own' = IF e = "draw" /\ V = "private" THEN own + 1 ELSE own
Step ==
    /\ call # Idle /\ call.at <= Len(Effects(call.k)) /\ Do(Effects(call.k)[call.at])
    /\ call' = [call EXCEPT !.at = @ + 1] /\ UNCHANGED <<before, answers, failed>>
End ==
    /\ call # Idle /\ call.at > Len(Effects(call.k)) /\ call' = Idle
    /\ answers' = IF call.k = "rand" THEN answers \cup {<<before.random, answer>>} ELSE answers
    /\ UNCHANGED <<world, before, answer, own, failed>>
Fail ==
    /\ call # Idle /\ call.at <= Len(Effects(call.k)) /\ call' = Idle /\ failed' = TRUE
    /\ world' = CASE V = "restored" -> [world EXCEPT !.folder = before.folder]
                  [] V = "say" -> [world EXCEPT !.said = @ + 1]
                  [] OTHER -> world
    /\ UNCHANGED <<before, answer, own, answers>>
Next == n < Steps /\ n' = n + 1 /\ ((\E k \in Kinds : Begin(k)) \/ Seed \/ Step \/ End \/ Fail)
        /\ kind' = IF call' # Idle THEN call'.k ELSE kind
InitK == Init /\ kind = "none"
Inv == /\ call = Idle /\ kind # "none" => \A p \in Parts \ Allowed(kind) : world[p] = before[p]
       /\ \A x, y \in answers : x[1] = y[1] => x = y
=============================================================================
