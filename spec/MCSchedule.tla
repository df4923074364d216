----------------------------- MODULE MCSchedule -----------------------------
(* All schedules of up to MaxPoints points on a small grid, walked along    *)
(* the keys. Prints the schedules for replay.                               *)
EXTENDS Schedule, Json, TLC

CONSTANTS MaxPoints, MaxX       \* MaxX: greatest position of a point, in halves

Ys == {-16, 0, 12, 40}          \* eighths
Xs == 0..MaxX

VARIABLES s, x

RECURSIVE Grow(_)
Grow(n) == IF n = 1 THEN {<<<<Flt(y), p>>>> : y \in Ys, p \in {0, 1, 2}}
           ELSE UNION {{Append(ps, <<Flt(y), p>>) : y \in Ys, p \in {q \in Xs : q >= ps[n - 1][2]}} : ps \in Grow(n - 1)}

Init == \E n \in 1..MaxPoints : \E ps \in Grow(n) : \E is \in [1..(n - 1) -> {"lin", "cos", "step"}] :
          \* not more than two points at a key
          /\ \A i \in 1..(n - 2) : ps[i][2] < ps[i + 2][2]
          /\ s = <<"sched", "step", ps, is, 0>> /\ x = 0
Next == x <= MaxX \div 2 + 1 /\ x' = x + 1 /\ UNCHANGED s

N == Len(SPoints(s))
Y(i) == SPoints(s)[i][1][2]
P(i) == SPoints(s)[i][2]
X == 2 * x
\* Bounds of the value, in units of 10^-5
Lo(e) == CASE e[1] = "exact" -> e[2][2] * Scale [] e[1] = "approx" -> e[2] - e[3] [] e[1] = "between" -> e[2] * Scale
Hi(e) == CASE e[1] = "exact" -> e[2][2] * Scale [] e[1] = "approx" -> e[2] + e[3] [] e[1] = "between" -> e[3] * Scale
Here == EvalAt(s, x)
Exactly(i) == Here = <<"exact", Flt(Y(i))>>

Stated == \A i \in 1..N : P(i) = X /\ (i = N \/ P(i + 1) > X) => Exactly(i)
Before == X < P(1) => Exactly(1)
After == X >= P(N) => Exactly(N)
Inside(i) == i < N /\ P(i) < X /\ X < P(i + 1)
Held == \A i \in 1..N : Inside(i) /\ SInterps(s)[i] = "step" => Exactly(i)
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Bounded == \A i \in 1..N : Inside(i) => Lo(Here) >= Min(Y(i), Y(i + 1)) * Scale - 60 /\ Hi(Here) <= Max(Y(i), Y(i + 1)) * Scale + 60
\* Within a segment the value moves one way
Monotone == \A i \in 1..N : Inside(i) /\ X + 2 <= P(i + 1) /\ (X + 2 < P(i + 1) \/ i + 1 = N \/ P(i + 2) > P(i + 1)) /\ SInterps(s)[i] # "step" =>
              LET e == EvalAt(s, x + 1) IN IF Y(i) <= Y(i + 1) THEN Lo(Here) <= Hi(e) ELSE Hi(Here) >= Lo(e)
\* A straight line: halfway between its neighbours
Straight == \A i \in 1..N : Inside(i) /\ P(i) <= X - 2 /\ X + 2 < P(i + 1) /\ SInterps(s)[i] = "lin" =>
              LET a == EvalAt(s, x - 1)  b == EvalAt(s, x + 1) IN
              /\ (Lo(a) + Lo(b)) \div 2 <= Hi(Here) + 1 /\ (Hi(a) + Hi(b)) \div 2 >= Lo(Here) - 1
\* The cosine is symmetric about the middle of its segment
Symmetric == \A i \in 1..N : Inside(i) /\ SInterps(s)[i] = "cos" /\ (P(i) + P(i + 1)) % 2 = 0 /\ Here[1] # "between" =>
               LET e == EvalAt(s, (P(i) + P(i + 1) - X) \div 2) IN
               e[1] # "between" => /\ Lo(Here) + Lo(e) <= (Y(i) + Y(i + 1)) * Scale /\ (Y(i) + Y(i + 1)) * Scale <= Hi(Here) + Hi(e)
\* Ints are truncated towards zero
Truncates == \A y \in Ys : \A o \in -3..6 : Here = <<"exact", Flt(y)>> => (IsValueAt(<<"int">>, s, x, I(o)) <=> (o = (IF y >= 0 THEN y \div 8 ELSE -((-y) \div 8))))
Inv == Stated /\ Before /\ After /\ Held /\ Bounded /\ Monotone /\ Straight /\ Symmetric /\ Truncates

Emit == x = 0 => PrintT("@" \o ToJson(s))
=============================================================================
