------------------------------- MODULE MC_Tone -------------------------------
(***************************************************************************)
(* All strings over a reduced alphabet, read by the notation automaton one *)
(* character at a time (CASE lines: the strings, replayed into the code),  *)
(* and all pitches of a range spelled and read back.                       *)
(***************************************************************************)
EXTENDS Pitch, IOUtils
MaxLen == IF IOEnv.DEPTH = "4" THEN 4 ELSE 3
Alphabet == {67, 66, 69, 72, 99, 35, 98, 45, 48, 49, 57, 32, 43}   \* C B E H c # b - 0 1 9 space +
VARIABLES text, aut, p
Init == text = <<>> /\ aut = NotationInit /\ p \in -60..60
Type == /\ p = 0 /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c) /\ aut' = NotationStep(aut, c)
        /\ p' = p
Next == Type
\* the automaton is the language  [A-G] [#b]* (-? [0-9]+)?
Sub(i, j) == SubSeq(text, i, j)
All(s, S) == \A i \in DOMAIN s : s[i] \in S
InLanguage ==
    /\ Len(text) >= 1 /\ text[1] \in Letters
    /\ \E i \in 1..Len(text) :
         /\ All(Sub(2, i), {Sharp, Flat})
         /\ LET rest == Sub(i + 1, Len(text)) IN
            \/ rest = <<>>
            \/ All(rest, Digits)
            \/ Len(rest) >= 2 /\ rest[1] = Minus /\ All(Tail(rest), Digits)
Recognizes == NotationAccepts(aut) <=> InLanguage
\* spelling: for every pitch, both spellings are in the language and denote it
SpellBack == \A down \in BOOLEAN :
    LET a == Parse(Spell(IntOf(p), down)) IN NotationAccepts(a) /\ NotationPitch(a) = IntOf(p)
OctaveFloor == LET o == IToInt(Octave(IntOf(p))) IN 12 * o <= p /\ p < 12 * o + 12
\* enharmonic laws: a sharp cancels a flat, an octave is twelve semitones
Law == (p = 0 /\ NotationAccepts(aut) /\ aut.q = "acc") =>
          /\ NotationPitch(NotationStep(aut, Sharp)) = IAdd(NotationPitch(aut), IntOf(1))
          /\ NotationPitch(NotationStep(aut, Flat)) = IAdd(NotationPitch(aut), IntOf(-1))
          /\ NotationPitch(NotationStep(aut, 49)) = IAdd(NotationPitch(aut), IntOf(12))
Inv == Recognizes /\ SpellBack /\ OctaveFloor /\ Law
Emit == p = 0 => PrintT("CASE|" \o ToString(text))
=============================================================================
