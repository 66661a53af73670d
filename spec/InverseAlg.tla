----------------------------- MODULE InverseAlg -----------------------------
(***************************************************************************)
(* Sampling by inverting a distribution function: a law with two pieces,    *)
(* of which the second continues the first, restricted to lo..hi.  A level  *)
(* is drawn evenly between the function's values at the ends of the range   *)
(* and inverted.  Every law, range and break within the bounds; then an     *)
(* error is added if and only if the quantity is observed.                  *)
(***************************************************************************)
EXTENDS Laws, TLC

CONSTANTS Bug, Cells, Top

VARIABLES first, second, brk, lo, hi, observed, err, true, obs
vars == <<first, second, brk, lo, hi, observed, err, true, obs>>
Cell == 1..Cells

\* the second piece is scaled to continue the first one: both are scaled so
\* that they agree in the cell brk, the last one of the first piece
Weight2(c) == IF c <= brk THEN first[c] * second[brk]
              ELSE IF Bug = "uncontinued" THEN second[c] * second[brk]
              ELSE second[c] * first[brk]

RECURSIVE Below(_)
Below(c) == IF c = 0 THEN 0 ELSE Weight2(c) + Below(c - 1)

From == IF Bug = "noloweroffset" THEN 0 ELSE Below(lo - 1)
To == IF Bug = "upperonly" THEN Below(Cells) ELSE Below(hi)
Inv(u) == CHOOSE c \in Cell : Below(c - 1) <= u /\ u < Below(c)
Clip(c) == IF Bug # "clip" THEN c ELSE IF c < lo THEN lo ELSE IF c > hi THEN hi ELSE c
Levels == IF Bug = "clip" THEN 0..(Below(Cells) - 1) ELSE From..(To - 1)
Ways(c) == Cardinality({u \in Levels : Clip(Inv(u)) = c})

Init == /\ first \in [Cell -> 1..Top] /\ second \in [Cell -> 1..Top]
        /\ brk \in Cell /\ lo \in Cell /\ hi \in lo..Cells
        /\ observed \in BOOLEAN /\ err \in 0..1 /\ true = 0 /\ obs = 0
        \* the pieces outside their ranges do not matter
        /\ \A c \in Cell : (c > brk => first[c] = 1) /\ (c < brk => second[c] = 1)

Draw == /\ true = 0
        /\ \E u \in Levels : true' = Clip(Inv(u))
        /\ \E e \in {-1, 0, 1} : obs' =
             IF observed \/ Bug = "always" THEN (IF Bug = "fromzero" THEN 0 ELSE true') + err * e
             ELSE true'
        /\ UNCHANGED <<first, second, brk, lo, hi, observed, err>>
Next == Draw

Lawful == \A c \in Cell : Ways(c) = IF c \in lo..hi THEN Weight2(c) ELSE 0
Continued == brk < Cells => \* the ratio across the break is that of the second piece
  Weight2(brk + 1) * second[brk] = Weight2(brk) * second[brk + 1]
Within == true # 0 => true \in lo..hi
Errors == true # 0 => /\ ~observed => obs = true
                      /\ err = 0 => obs = true
                      /\ obs - true \in {-1, 0, 1}
=============================================================================
