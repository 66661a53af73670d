----------------------------- MODULE DisplayAlg -----------------------------
(***************************************************************************)
(* How populations are put on axes: every history of making populations    *)
(* and axes and displaying, each display as the package composes it.       *)
(***************************************************************************)
EXTENDS Display, Json

CONSTANTS Bug, Depth, MaxPops, MaxAxes, Emit

VARIABLES st, ax, bad, hist
vars == <<st, ax, bad, hist>>

\* populations of three objects at most; every quantity has its own ranks
Shape(s) == CASE s = "empty" -> <<>> [] s = "none" -> <<FALSE, FALSE>>
              [] s = "some" -> <<TRUE, FALSE, TRUE>> [] OTHER -> <<TRUE, TRUE>>
Pop(id, s) ==
  LET sel == Shape(s)
      n == Len(sel)
  IN  [ op |-> "pop", id |-> id, n |-> n, sel |-> sel, d |-> [i \in 1..n |-> i],
        lat |-> [i \in 1..n |-> 10 + i], obs |-> [i \in 1..n |-> 25 - i],
        lum |-> [i \in 1..n |-> 30 + i], pars |-> [L |-> 40] ]

Layer(c, p, y, idx) == [c |-> c, pts |-> IF Bug = "lumxy" /\ y = p.lum THEN Points(y, p.d, idx) ELSE Points(p.d, y, idx)]

\* display_fluxes displays first the true, then the observed fluxes
RECURSIVE Draw(_, _)
Draw(p, kind) ==
  CASE kind = "true" -> <<Layer("t", p, IF Bug = "obsastrue" THEN p.obs ELSE p.lat, All(p))>>
    [] kind = "obs" ->
         IF Seen(p) = <<>> THEN <<>>
         ELSE <<Layer("o", p, IF Bug = "latasobs" THEN p.lat ELSE p.obs, IF Bug = "allobs" THEN All(p) ELSE Seen(p))>>
    [] kind \in {"fluxes", "arrows"} -> Draw(p, "true") \o Draw(p, "obs")
    [] kind = "lums" ->
         IF Bug = "swaplums" THEN <<Layer("o", p, p.lum, Hidden(p)), Layer("t", p, p.lum, Seen(p))>>
         ELSE <<Layer("o", p, p.lum, Seen(p)), Layer("t", p, p.lum, Hidden(p))>>

Ends(p, kind) ==
  IF kind # "arrows" THEN <<>>
  ELSE LET s == IF Bug = "allarrows" THEN All(p) ELSE Seen(p)
       IN  [i \in 1..Len(s) |-> <<p.d[s[i]], IF Bug = "noarrow" THEN p.obs[s[i]] ELSE p.lat[s[i]], p.obs[s[i]]>>]

Pops == DOMAIN st.pops
Ev(id, kind, a, own) ==
  LET p == st.pops[id]
      new == Draw(p, kind)
      old == IF a \in DOMAIN ax /\ Bug # "clear" THEN ax[a] ELSE <<>>
      away == Bug = "newaxes" /\ ~own /\ kind = "obs"
  IN  [ op |-> "show", id |-> id, kind |-> kind, ax |-> a, own |-> own, ok |-> TRUE, err |-> "",
        nothing |-> own /\ kind = "obs" /\ Seen(p) = <<>>, layers |-> IF away THEN new ELSE old \o new,
        arrows |-> Ends(p, kind), fig |-> ~away, same |-> Bug # "sorts" ]

Hist(id) ==
  LET p == st.pops[id]
      edges == <<0, 2, 3>>
      \* the last bin is closed
      n(idx, b) == Cardinality({i \in 1..Len(idx) : LET v == p.d[idx[i]]
                     IN IF Bug = "open" THEN v >= edges[b] /\ v < edges[b + 1] ELSE InBin(v, edges, b)})
  IN  [ op |-> "hist", id |-> id, ok |-> TRUE, err |-> "", edges |-> edges, same |-> TRUE,
        bars |-> << [b \in 1..2 |-> n(All(p), b)],
                    [b \in 1..2 |-> n(IF Bug = "hiddenbars" THEN Hidden(p) ELSE Seen(p), b)] >> ]

Ball(id, kind) ==
  LET p == st.pops[id]
      first == IF kind = "hidden" \/ Seen(p) = <<>> THEN <<>> ELSE <<Seen(p)>>
      second == IF kind = "obs" \/ Hidden(p) = <<>> THEN <<>> ELSE <<Hidden(p)>>
      parts == IF Bug = "twofigures" /\ second # <<>> THEN second ELSE first \o second
      gone == IF Bug = "lastfigure" THEN (IF kind = "obs" THEN first ELSE second) = <<>> ELSE parts = <<>>
      at(i, o) == 100 + 10 * o + i
  IN  [ op |-> "sphere", id |-> id, kind |-> kind, ok |-> TRUE, err |-> "", nothing |-> gone, same |-> TRUE,
        x |-> [i \in 1..p.n |-> at(i, 0)], y |-> [i \in 1..p.n |-> at(i, 1)], z |-> [i \in 1..p.n |-> at(i, 2)],
        layers |-> [k \in 1..Len(parts) |-> [j \in 1..Len(parts[k]) |->
                      <<at(parts[k][j], 0), at(parts[k][j], 1), at(parts[k][j], 2)>>]],
        col |-> [k \in 1..Len(parts) |-> [j \in 1..Len(parts[k]) |->
                   IF Bug = "reversed" THEN 100 - p.obs[parts[k][j]] ELSE p.obs[parts[k][j]]]] ]

Info(id) ==
  LET p == st.pops[id]
  IN  [ op |-> "info", id |-> id, ok |-> TRUE, err |-> "", counts |-> <<Len(Seen(p)), p.n>>,
        pars |-> [L |-> IF Bug = "stalepars" THEN 39 ELSE 40], same |-> TRUE,
        repr |-> <<IF Bug = "total" THEN Len(Seen(p)) ELSE p.n, Len(Seen(p)), Len(Hidden(p))>> ]

Do(ev, act) == /\ Len(hist) < Depth
               /\ st' = Apply(st, ev) /\ bad' = bad \cup Check(st, ev) /\ hist' = Append(hist, act)

MakePop == \E s \in {"empty", "none", "some", "all"} :
  LET id == Cardinality(Pops) + 1
  IN  /\ id <= MaxPops /\ Do(Pop(id, s), [op |-> "pop", shape |-> s]) /\ UNCHANGED ax

MakeAxes ==
  LET a == Cardinality(DOMAIN ax) + 1
  IN  /\ a <= MaxAxes
      /\ Do([op |-> "axes", id |-> a], [op |-> "axes"]) /\ ax' = Put(ax, a, <<>>)

OnAxes == \E id \in Pops, kind \in {"true", "obs", "fluxes", "arrows", "lums"} :
  LET fresh == Cardinality(DOMAIN ax) + 1
  IN  \E a \in DOMAIN ax \cup (IF fresh <= MaxAxes THEN {fresh} ELSE {}) :
        LET own == a = fresh
            ev == Ev(id, kind, a, own)
        IN  /\ Do(ev, [op |-> "show", id |-> id, kind |-> kind, ax |-> IF own THEN 0 ELSE a])
            /\ ax' = IF ev.nothing THEN ax ELSE Put(ax, a, ev.layers)

Others == \E id \in Pops :
  \/ Do(Hist(id), [op |-> "hist", id |-> id]) /\ UNCHANGED ax
  \/ \E k \in {"obs", "hidden", "both"} : Do(Ball(id, k), [op |-> "sphere", id |-> id, kind |-> k]) /\ UNCHANGED ax
  \/ Do(Info(id), [op |-> "info", id |-> id]) /\ UNCHANGED ax

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, ax, bad>> /\ hist' = Append(hist, [op |-> "end"])

Init == st = InitSt /\ ax = <<>> /\ bad = {} /\ hist = <<>>
Next == MakePop \/ MakeAxes \/ OnAxes \/ Others \/ Finish
View == <<st, ax, bad, Len(hist)>>

NoViolation == bad = {}
Agree == \A a \in DOMAIN ax : a \in DOMAIN st.axes => SameLayers(ax[a], st.axes[a])
=============================================================================
