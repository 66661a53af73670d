------------------------------ MODULE StoreAlg ------------------------------
(***************************************************************************)
(* How populations are kept: as named data sets of a file or of a group,   *)
(* the indices counted from zero, the graph as its adjacency.  Every       *)
(* history of Depth calls on a pool of populations is judged by            *)
(* Store!Check; in simulation mode the histories are printed.              *)
(***************************************************************************)
EXTENDS Store, TLC, Json

CONSTANTS Bug, Depth, Emit, MaxPops, Kinds, Files, Groups, Spaces

VARIABLES st, pop, disk, asked, bad, hist
vars == <<st, pop, disk, asked, bad, hist>>

Name(i) == "p" \o ToString(i)
Fresh == Name(Cardinality(DOMAIN st.p) + 1)

\* what a drawn population holds; every third one has nothing
Drawn(k) ==
  LET n == k % 3
      v == [i \in 1..n |-> 10 * k + i]
      sel == [i \in 1..n |-> (k + i) % 2 = 0]
      det == Chosen(v, sel)
  IN  [ lum |-> v, lat |-> v, obs |-> [i \in 1..n |-> 100 + 10 * k + i], sel |-> sel,
        known |-> IF k % 4 < 2 THEN det ELSE <<>>,
        kidx |-> IF k % 4 < 2 THEN [i \in 1..Len(det) |-> i - 1] ELSE <<>>,
        nidx |-> IF k % 4 < 2 THEN <<>> ELSE [i \in 1..Len(det) |-> i - 1],
        edges |-> {<<"a", "b">>}, seed |-> k, spaces |-> asked ]

\* a grid of three points
Grid(g) == [i \in 1..3 |-> g + i - 1]
Ask(k, g) == IF Bug = "firstspace" /\ k \in DOMAIN asked THEN asked ELSE With(asked, k, Grid(g))

Log(s) == [i \in 1..Len(s) |-> 1000 + s[i]]

Look(a) ==
  LET n == Len(a.sel)
      nd == Len(IndexFrom(a.sel, TRUE, 1))
      dist == Chosen(a.lum, a.sel)
      flux == Chosen(a.obs, a.sel)
      zero == IF Bug = "zerobased" THEN 0 ELSE 1
      kx == [i \in 1..Len(a.kidx) |-> a.kidx[i] + zero]
      nx == [i \in 1..Len(a.nidx) |-> a.nidx[i] + zero]
      aux == IF Bug = "allaux" THEN a.obs ELSE flux
  IN  [ exported |-> TRUE, n |-> n, nd |-> nd, nn |-> n - nd, has |-> nd > 0, sel |-> a.sel,
        vals |-> [ distances |-> [obs |-> a.lum, lat |-> a.lum],
                   fluxes |-> [obs |-> a.obs, lat |-> a.lat],
                   x |-> [obs |-> a.obs, lat |-> a.lat] ],
        aux |-> [x |-> "x"], known |-> a.known, fields |-> [seed |-> a.seed],
        nodes |-> <<"a", "b">>,
        edges |-> IF a.edges = {} THEN <<>> ELSE
                  IF Cardinality(a.edges) = 1 THEN << CHOOSE x \in a.edges : TRUE >>
                  ELSE << <<"a", "b">>, <<"b", "a">> >>,
        logs |-> Log(flux), flux_sigma |-> 0, r_max |-> 0, n_model |-> 3, spaces |-> a.spaces,
        stan |-> [ N |-> nd, Nz |-> Len(a.known), Nnz |-> Len(a.nidx),
                   z_idx |-> kx, r_idx |-> kx, z_nidx |-> nx, r_nidx |-> nx,
                   z_obs |-> dist, r_obs |-> dist, known_z_obs |-> a.known, known_r_obs |-> a.known,
                   flux_obs |-> flux, log_flux_obs |-> Log(flux), aux |-> [x |-> aux],
                   flux_sigma |-> 0, z_max |-> 0, r_max |-> 0, n_model |-> 3,
                   spaces |-> a.spaces ] ]

\* an entry of a file; one of an older version has no indices
Gone == <<-1>>
Stored(a) == IF Bug = "onlyobserved" THEN [a EXCEPT !.lat = a.obs] ELSE a
Loaded(r) == IF Bug = "nospaces" THEN [r EXCEPT !.spaces = [x \in {} |-> <<>>]]
             ELSE IF Bug = "undirected" THEN [r EXCEPT !.edges = @ \cup {<<x[2], x[1]>> : x \in @}]
             ELSE IF r.kidx = Gone /\ Bug # "oldasis"
             THEN LET det == Chosen(r.lum, r.sel)
                      all == [i \in 1..Len(det) |-> i - 1]
                  IN  IF Bug = "oldknown" THEN [r EXCEPT !.known = det, !.kidx = all, !.nidx = <<>>]
                      ELSE [r EXCEPT !.known = <<>>, !.kidx = <<>>, !.nidx = all]
             ELSE IF Bug = "noindex" THEN [r EXCEPT !.kidx = <<>>, !.known = <<>>] ELSE r

Write(d, a, f) ==
  IF Bug = "append" /\ f \in DOMAIN d
  THEN [d EXCEPT ![f] = With(@, "", Stored(a))]
  ELSE With(d, f, [g \in {""} |-> Stored(a)])
AddOk(d, f, g) == f \in DOMAIN d /\ (Bug = "replace" \/ g \notin DOMAIN d[f])
Add(d, a, f, g) ==
  IF ~AddOk(d, f, g) THEN d
  ELSE IF Bug = "wipe" THEN [d EXCEPT ![f] = [x \in {"", g} |-> Stored(a)]]
  ELSE [d EXCEPT ![f] = With(@, g, Stored(a))]

Sub(a, observed) ==
  LET mask == IF observed THEN a.sel ELSE Not(a.sel)
      k == Len(IndexFrom(mask, TRUE, 1))
  IN  [ a EXCEPT !.lum = Chosen(@, mask),
                 !.lat = Chosen(IF Bug = "latentasobserved" THEN a.obs ELSE @, mask),
                 !.obs = Chosen(@, mask),
                 !.sel = IF Bug = "keepsel" THEN Chosen(a.sel, mask) ELSE [i \in 1..k |-> TRUE],
                 !.known = IF observed \/ Bug = "keepknown" THEN @ ELSE <<>>,
                 !.kidx = IF observed \/ Bug = "keepknown" THEN @ ELSE <<>>,
                 !.nidx = IF observed THEN @ ELSE [i \in 1..k |-> i - 1] ]
\* the parent
Left(a, observed) ==
  IF Bug = "parent" THEN [a EXCEPT !.obs = [i \in 1..Len(@) |-> IF a.sel[i] THEN @[i] ELSE 0]] ELSE a

Script(e) == [x \in DOMAIN e \ {"d", "ok", "grids"} |-> e[x]]
Do(ev, p2, d2) ==
  /\ bad' = bad \cup Check(st, ev) /\ st' = Apply(st, ev) /\ pop' = p2 /\ disk' = d2
  /\ hist' = Append(hist, Script(ev))
  /\ asked' = IF ev.op = "space" THEN Ask(ev.name, ev.by) ELSE asked

Room == Cardinality(DOMAIN st.p) < MaxPops

\* printed histories begin with populations and a file, and do not often ask
\* for what is not there
Call ==
  /\ Len(hist) < Depth
  /\ \/ \E k \in Spaces : \E g \in {1, 5} : (Emit => Len(hist) % 3 = 1) /\
          Do([op |-> "space", name |-> k, by |-> g, grid |-> Grid(g), ok |-> TRUE],
             IF Bug = "sharedspaces" THEN [p \in DOMAIN pop |-> [pop[p] EXCEPT !.spaces = Ask(k, g)]]
             ELSE pop, disk)
     \/ /\ Room
        /\ \E k \in Kinds :
             Do([op |-> "make", p |-> Fresh, kind |-> k, drawn |-> TRUE, grids |-> asked, d |-> Look(Drawn(k))],
                With(pop, Fresh, Drawn(k)), disk)
     \/ \E p \in DOMAIN st.p : \E f \in Files :
          (Emit => Len(hist) >= 2) /\
          Do([op |-> "write", p |-> p, f |-> f, ok |-> TRUE], pop, Write(disk, pop[p], f))
     \/ \E p \in DOMAIN st.p : \E f \in Files : \E g \in Groups :
          (Emit /\ ~AddOk(disk, f, g) => Len(hist) > 2 /\ Len(hist) % 3 = 0) /\
          Do([op |-> "add", p |-> p, f |-> f, g |-> g, up |-> <<>>, ok |-> AddOk(disk, f, g)],
             pop, Add(disk, pop[p], f, g))
     \/ /\ Room
        /\ \E f \in Files : \E g \in Groups \cup {""} :
             LET ok == f \in DOMAIN disk /\ g \in DOMAIN disk[f]
                 a == IF ok THEN Loaded(disk[f][g]) ELSE Drawn(0)
             IN  (Emit /\ ~ok => Len(hist) > 2 /\ Len(hist) % 4 = 0) /\
                 Do([op |-> "read", p |-> Fresh, f |-> f, g |-> g, ok |-> ok, d |-> Look(a)],
                    IF CanRead(st, [f |-> f, g |-> g]) THEN With(pop, Fresh, a) ELSE pop, disk)
     \/ /\ Room
        /\ \E p \in DOMAIN st.p : \E o \in BOOLEAN :
             Do([op |-> "sub", p |-> p, q |-> Fresh, observed |-> o, ok |-> TRUE,
                 d |-> Look(Sub(pop[p], o))],
                With([pop EXCEPT ![p] = Left(@, o)], Fresh, Sub(pop[p], o)), disk)
     \/ \E f \in DOMAIN disk : \E g \in DOMAIN disk[f] : (Emit => Len(hist) > 3) /\
          Do([op |-> "old", f |-> f, g |-> g, gone |-> <<"known">>], pop,
             [disk EXCEPT ![f][g].kidx = Gone, ![f][g].known = IF Bug = "oldasis" THEN @ ELSE <<>>])
     \/ \E p \in DOMAIN st.p : (Emit => Len(hist) > 4) /\
          Do([op |-> "look", p |-> p, d |-> Look(pop[p])], pop, disk)

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, pop, disk, asked, bad>> /\ hist' = Append(hist, [op |-> "end"])

Init == st = InitSt /\ pop = [x \in {} |-> 0] /\ disk = [x \in {} |-> 0] /\ asked = [x \in {} |-> <<>>] /\ bad = {} /\ hist = <<>>
Next == Call \/ Finish
View == <<st, pop, disk, asked, bad, Len(hist)>>

NoViolation == bad = {}
Agree == \A p \in DOMAIN pop : p \in DOMAIN st.p /\ Differ(st.p[p], Look(pop[p])) = {}
SameGroups == \A f \in DOMAIN st.f : f \in DOMAIN disk /\ DOMAIN st.f[f] = DOMAIN disk[f]
=============================================================================
