------------------------------ MODULE MC_Track ------------------------------
(***************************************************************************)
(* Track as the code keeps it - a binary heap of (position, note) on a     *)
(* common denominator, a sorted flag and a running maximum - refining the  *)
(* abstract track of Tracks.  All histories up to Depth operations over a  *)
(* small set of positions and notes; the histories are also printed        *)
(* (CASE lines) and replayed into the code.                                *)
(***************************************************************************)
EXTENDS Tracks, TLC, IOUtils

Depth == IF IOEnv.DEPTH = "4" THEN 4 ELSE IF IOEnv.DEPTH = "3" THEN 3 ELSE 2
\* positions n/d with d a power of two, and notes: pitch, duration n/d
Positions == <<<<0, 1>>, <<1, 2>>, <<3, 8>>, <<2, 4>>>>
NoteBox == <<<<0, 1, 4>>, <<1, 1, 8>>, <<0, 0, 1>>, <<0, 3, 2>>>>

NoteV(k) == [p |-> IntOf(NoteBox[k][1]), d |-> Canon(Frac(NoteBox[k][2], NoteBox[k][3])), v |-> CUnit]

VARIABLES heap, maxden, maxpos, sorted,     \* the implementation
          abs,                              \* the abstract track
          hist                              \* operations so far, as numbers
vars == <<heap, maxden, maxpos, sorted, abs, hist>>

\* implementation values: position <<n, d>>, heap element <<n (over maxden), k>>
Init == /\ heap = <<>> /\ maxden = 1 /\ maxpos = <<0, 1>> /\ sorted = TRUE
        /\ abs = EmptyTrack(Frac(4, 4)) /\ hist = <<>>

\* comparison of heap elements: position, then note (pitch, duration)
DurLt(a, b) == a[2] * b[3] < b[2] * a[3]
DurEq(a, b) == a[2] * b[3] = b[2] * a[3]
ElemLt(x, y) == \/ x[1] < y[1]
                \/ x[1] = y[1] /\ LET a == NoteBox[x[2]] b == NoteBox[y[2]] IN
                                  a[1] < b[1] \/ (a[1] = b[1] /\ DurLt(a, b))
RECURSIVE SiftUp(_, _)
SiftUp(h, i) == IF i = 1 THEN h
                ELSE LET j == i \div 2 IN
                     IF ElemLt(h[i], h[j]) THEN SiftUp([h EXCEPT ![i] = h[j], ![j] = h[i]], j) ELSE h
Push(h, x) == SiftUp(Append(h, x), Len(h) + 1)

\* one note at position <<n, d>> on state s = [heap, maxden, maxpos]
Add1(s, pos, k) ==
    LET md == IF pos[2] > s.maxden THEN pos[2] ELSE s.maxden
        h0 == [i \in DOMAIN s.heap |-> <<s.heap[i][1] * (md \div s.maxden), s.heap[i][2]>>]
        n == pos[1] * (md \div pos[2])
        dn == NoteBox[k][2] dd == NoteBox[k][3]
        ed == IF dd > md THEN dd ELSE md
        en == n * (ed \div md) + dn * (ed \div dd)
        later == en * s.maxpos[2] > s.maxpos[1] * ed
    IN [heap |-> Push(h0, <<n, k>>), maxden |-> md, maxpos |-> IF later THEN <<en, ed>> ELSE s.maxpos]

Cur == [heap |-> heap, maxden |-> maxden, maxpos |-> maxpos]
Become(s) == heap' = s.heap /\ maxden' = s.maxden /\ maxpos' = s.maxpos /\ sorted' = FALSE

AddNote == \E i \in DOMAIN Positions, k \in DOMAIN NoteBox :
    /\ Become(Add1(Cur, Positions[i], k))
    /\ abs' = AddAt(abs, <<NoteV(k)>>, Canon(Frac(Positions[i][1], Positions[i][2])))
    /\ hist' = Append(hist, 10 * i + k)
AppendNote == \E k \in DOMAIN NoteBox :
    /\ Become(Add1(Cur, maxpos, k))
    /\ abs' = AppendNotes(abs, <<NoteV(k)>>)
    /\ hist' = Append(hist, 50 + k)
\* a collection: its position is fixed when the call starts
AppendTwo == \E k \in {1, 4}, j \in {2, 3} :
    /\ Become(Add1(Add1(Cur, maxpos, k), maxpos, j))
    /\ abs' = AppendNotes(abs, <<NoteV(k), NoteV(j)>>)
    /\ hist' = Append(hist, 60 + 10 * k + j)
Iterate == /\ heap' = SortSeq(heap, ElemLt) /\ sorted' = TRUE
           /\ UNCHANGED <<maxden, maxpos, abs>> /\ hist' = Append(hist, 1)
Next == Len(hist) < Depth /\ (AddNote \/ AppendNote \/ AppendTwo \/ Iterate)

Concrete == [i \in DOMAIN heap |-> At(NoteV(heap[i][2]), Canon(Frac(heap[i][1], maxden)))]
Refines == SameBag(Concrete, abs.ents)
HeapOrder == \A i \in 2..Len(heap) : ~ElemLt(heap[i], heap[i \div 2])
SortedOrder == sorted => \A i \in 1..(Len(heap) - 1) : ~ElemLt(heap[i + 1], heap[i])
LatestEnd == Canon(Frac(maxpos[1], maxpos[2])) = Length(abs)
Inv == Refines /\ HeapOrder /\ SortedOrder /\ LatestEnd
Emit == Len(hist) = Depth => PrintT("CASE|" \o ToString(hist))
\* contents only grow, and iterating changes nothing
Grows == [][IsPrefix(abs.ents, abs'.ents)]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
