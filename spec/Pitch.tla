-------------------------------- MODULE Pitch --------------------------------
(***************************************************************************)
(* Tones: integer pitches and their notation.  Text is a sequence of       *)
(* character codes.  The notation grammar is a finite automaton with a     *)
(* register; NotationStep is its transition function, used both to explore *)
(* the language with TLC and to judge what the code did with a string.     *)
(***************************************************************************)
EXTENDS BigNat, TLC

LetterOffset == [A |-> 9, B |-> 11, C |-> 0, D |-> 2, E |-> 4, F |-> 5, G |-> 7]
\* by character code 65..71
Offset == (65 :> 9) @@ (66 :> 11) @@ (67 :> 0) @@ (68 :> 2) @@ (69 :> 4) @@ (70 :> 5) @@ (71 :> 7)
Letters == 65..71
Sharp == 35
Flat == 98
Minus == 45
Digits == 48..57

NotationInit == [q |-> "start", base |-> 0, acc |-> 0, neg |-> 0, oct |-> <<>>]

NotationStep(a, c) ==
    CASE a.q = "start" /\ c \in Letters -> [a EXCEPT !.q = "acc", !.base = Offset[c]]
      [] a.q = "acc" /\ c = Sharp -> [a EXCEPT !.acc = @ + 1]
      [] a.q = "acc" /\ c = Flat -> [a EXCEPT !.acc = @ - 1]
      [] a.q = "acc" /\ c = Minus -> [a EXCEPT !.q = "minus", !.neg = 1]
      [] a.q \in {"acc", "minus", "oct"} /\ c \in Digits ->
            [a EXCEPT !.q = "oct", !.oct = BAdd(BMulSmall(@, 10), Big(c - 48))]
      [] OTHER -> [a EXCEPT !.q = "bad"]

NotationAccepts(a) == a.q \in {"acc", "oct"}
NotationPitch(a) == IAdd(IMulSmall(MkInt(a.neg, a.oct), 12), IntOf(a.base + a.acc))

Parse(text) == FoldLeft(NotationStep, NotationInit, text)

----------------------------------------------------------------------------
Octave(p) == IDivMod(p, 12)[1]
Degree(p) == IDivMod(p, 12)[2]

RECURSIVE DecDigits(_)
DecDigits(a) == LET q == BDivSmall(a, 10)
                IN IF q[1] = <<>> THEN <<48 + q[2]>> ELSE Append(DecDigits(q[1]), 48 + q[2])
Decimal(x) == (IF x.s = 1 THEN <<Minus>> ELSE <<>>) \o DecDigits(x.m)

Natural(deg) == \E c \in Letters : Offset[c] = deg
LetterOf(deg) == CHOOSE c \in Letters : Offset[c] = deg

Spell(p, down) ==
    LET deg == Degree(p) IN
    (IF Natural(deg) THEN <<LetterOf(deg)>>
     ELSE IF down THEN <<LetterOf(deg + 1), Flat>>
     ELSE <<LetterOf(deg - 1), Sharp>>) \o Decimal(Octave(p))

Transpose(p, k) == IAdd(p, k)
=============================================================================
