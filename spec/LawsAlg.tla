------------------------------ MODULE LawsAlg ------------------------------
(***************************************************************************)
(* Rejection sampling of distances: propose a cell and a height below the  *)
(* envelope, accept if the height is below the density times the volume    *)
(* element over the time adjustment.  For every density on Cells cells,     *)
(* every adjustment and scale, the number of accepted proposals of a cell  *)
(* is proportional to what the cell should get, so the law is exact; and   *)
(* the survey ends with as many distances as asked.                        *)
(***************************************************************************)
EXTENDS Laws, TLC

CONSTANTS Bug, Cells, Top, Size

ASSUME \A x \in 0..3000 :
  Root(x) * Root(x) >= x /\ (Root(x) = 0 \/ (Root(x) - 1) * (Root(x) - 1) < x)
ASSUME Root(2147395600) = 46340

VARIABLES f, slow, scale, env, out
vars == <<f, slow, scale, env, out>>

Cell == 1..Cells
\* slow: where the time adjustment is two
What(c) == IF slow[c] THEN f[c] ELSE 2 * f[c]
Max(g) == CHOOSE m \in {g[c] : c \in Cell} : \A c \in Cell : g[c] <= m

Envelope ==
  CASE Bug = "density" -> scale * Max([c \in Cell |-> f[c]])      \* forgets the rest
    [] Bug = "first" -> scale * What(1)
    [] Bug = "unscaled" -> Max([c \in Cell |-> What(c)])
    [] OTHER -> scale * Max([c \in Cell |-> What(c)])

Height(c) ==
  CASE Bug = "adjust" -> scale * 2 * f[c]
    [] Bug = "twice" -> IF slow[c] THEN (scale * f[c]) \div 2 ELSE scale * 2 * f[c]
    [] OTHER -> scale * What(c)

Accepts(c, u) == IF Bug = "atleast" THEN u <= Height(c) ELSE u < Height(c)

Init == /\ f \in [Cell -> 0..Top] /\ \E c \in Cell : f[c] > 0
        /\ slow \in [Cell -> BOOLEAN] /\ scale \in 1..2
        /\ env = Envelope /\ out = <<>>

Propose == \E c \in Cell : \E u \in 0..(env - 1) :
  /\ Len(out) < Size
  /\ out' = IF Accepts(c, u) THEN Append(out, c) ELSE out
  /\ UNCHANGED <<f, slow, scale, env>>
Next == Propose

Ways(c) == Cardinality({u \in 0..(env - 1) : Accepts(c, u)})

\* exactly proportional
Lawful == \A c, d \in Cell : Ways(c) * What(d) = Ways(d) * What(c)
NoneWhereNothing == \A i \in 1..Len(out) : f[out[i]] > 0
CanGoOn == Len(out) < Size => \E c \in Cell : Ways(c) > 0
=============================================================================
