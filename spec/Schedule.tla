------------------------------ MODULE Schedule ------------------------------
(* Hyperparameter schedules: piecewise functions of a field of the state.   *)
(*                                                                          *)
(*  <<"sched", field, points, interpolations, style>>                       *)
(*    points  <<value, x>>, x in halves, increasing; of several points at   *)
(*            one key the last one counts there                             *)
(*    interpolations  "lin" | "cos" | "step", one between any two points    *)
(*    style   how it is spelt, no meaning                                   *)
EXTENDS Values

SField(s) == s[2]
SPoints(s) == s[3]
SInterps(s) == s[4]

\* Values at inexact positions are given in units of 10^-5
Scale == 12500       \* per eighth

Trunc(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)      \* b > 0
DivNear(a, b) == (2 * a + b) \div (2 * b)
\* A * r / d for 0 <= r <= d without overflow
MulDiv(A, r, d) == LET q == Trunc(A, d)  m == A - q * d IN q * r + Trunc(m * r, d)

RECURSIVE PowerOfTwo(_)
PowerOfTwo(n) == n = 1 \/ (n % 2 = 0 /\ PowerOfTwo(n \div 2))

\* 10^4 times the weight of the left value, cos(pi r/d)/2 + 1/2, for d <= 4, d = 6, 8, 12
CosTable(r, d) ==
  LET k == (24 * r) \div d IN   \* in 24ths of a half turn
  CASE k = 0 -> 10000 [] k = 2 -> 9830 [] k = 3 -> 9619 [] k = 4 -> 9330 [] k = 6 -> 8536 [] k = 8 -> 7500
    [] k = 9 -> 6913 [] k = 10 -> 6294 [] k = 12 -> 5000 [] k = 14 -> 3706 [] k = 15 -> 3087 [] k = 16 -> 2500
    [] k = 18 -> 1464 [] k = 20 -> 670 [] k = 21 -> 381 [] k = 22 -> 170 [] k = 24 -> 0 [] OTHER -> -1

\* The value at the integer x: <<"exact", value>>, <<"approx", scaled, tolerance>> or <<"open">>
EvalAt(s, x) ==
  LET ps == SPoints(s)  n == Len(ps)  X == 2 * x IN
  IF X < ps[1][2] THEN <<"exact", ps[1][1]>>
  ELSE IF X >= ps[n][2] THEN <<"exact", ps[n][1]>>
  ELSE LET i == CHOOSE j \in 1..(n - 1) : ps[j][2] <= X /\ X < ps[j + 1][2]
           a == ps[i][1]  b == ps[i + 1][1]
           r == X - ps[i][2]  d == ps[i + 1][2] - ps[i][2]
       IN IF r = 0 THEN <<"exact", a>>
          ELSE IF SInterps(s)[i] = "step" THEN <<"exact", a>>
          ELSE IF a[1] # "float" \/ b[1] # "float" THEN <<"open">>
          ELSE IF SInterps(s)[i] = "lin"
          THEN IF PowerOfTwo(d) /\ ((b[2] - a[2]) * r) % d = 0 THEN <<"exact", Flt(a[2] + ((b[2] - a[2]) * r) \div d)>>
               ELSE IF d <= 40000 THEN <<"approx", a[2] * Scale + MulDiv((b[2] - a[2]) * Scale, r, d), 2>>
               ELSE LET c == (d + 39999) \div 40000   \* large distances, coarser: both counted in units of c
                        h == IF b[2] > a[2] THEN b[2] - a[2] ELSE a[2] - b[2]
                    IN <<"approx", a[2] * Scale + MulDiv((b[2] - a[2]) * Scale, r \div c, d \div c), 4 + (h * Scale) \div 5000>>
          ELSE LET w == IF (24 * r) % d = 0 THEN CosTable(r, d) ELSE -1 IN
               IF w >= 0 THEN <<"approx", b[2] * Scale + MulDiv((a[2] - b[2]) * Scale, w, 10000), 4 + (IF a[2] > b[2] THEN a[2] - b[2] ELSE b[2] - a[2])>>
               ELSE <<"between", IF a[2] < b[2] THEN a[2] ELSE b[2], IF a[2] < b[2] THEN b[2] ELSE a[2]>>

\* An observed float in units of 10^-5
ScaledObs(o) == IF o[1] = "float" THEN o[2] * Scale ELSE o[3]

\* Whether the observed value o of a field of type T (int or float) is the value at x
IsValueAt(T, s, x, o) ==
  LET e == EvalAt(s, x) IN
  IF T[1] = "float"
  THEN CASE e[1] = "exact" -> o[1] = e[2][1] /\ o[2] = e[2][2]
         [] e[1] = "approx" -> o[1] \in {"float", "flit"} /\ ScaledObs(o) \in (e[2] - e[3])..(e[2] + e[3])
         [] e[1] = "between" -> o[1] \in {"float", "flit"} /\ ScaledObs(o) \in (e[2] * Scale)..(e[3] * Scale)
         [] OTHER -> o[1] \in {"float", "flit", "inf"}
  ELSE o[1] = "int" /\
       CASE e[1] = "exact" -> e[2][1] = "float" => o[2] = Trunc(e[2][2], 8)
         [] e[1] = "approx" -> o[2] \in {Trunc(e[2] - e[3], 100000), Trunc(e[2] + e[3], 100000)}
         [] e[1] = "between" -> o[2] \in Trunc(e[2], 8)..Trunc(e[3], 8)
         [] OTHER -> TRUE
=============================================================================
