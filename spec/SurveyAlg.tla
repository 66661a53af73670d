----------------------------- MODULE SurveyAlg -----------------------------
(***************************************************************************)
(* The algorithm by which surveys are drawn, with the values its objects   *)
(* keep between surveys (sampled flags, true and observed values, stored   *)
(* selections, a stored graph), under every short history of attaching,    *)
(* configuring, drawing, cleaning and resetting.  Everything it does is    *)
(* judged by PopSynth!Check: the invariant says that the algorithm never   *)
(* violates a clause.  With Bug set to one of the known ways to get it     *)
(* wrong the invariant has to fail (spec/models.json lists both).          *)
(*                                                                         *)
(* The same module generates the histories which drv/run_replay.py         *)
(* executes on the real package: in simulation mode every behaviour prints *)
(* its operations when it reaches Depth.                                   *)
(***************************************************************************)
EXTENDS PopSynth, TLC, Json, SequencesExt

CONSTANTS Bug,      \* "none" or a way to get it wrong
          Depth,    \* number of operations of a history
          Emit,     \* print the histories
          Samplers, \* the auxiliary samplers, a subset of {"a", "b", "c"}
          Synths    \* a subset of {"y1", "y2"}

VARIABLES st,    \* what the user did
          obj,   \* what the objects keep
          bad,   \* clauses violated so far
          hist   \* operations so far

vars == <<st, obj, bad, hist>>

All == Samplers \cup {"d"}
Observed == {"a", "c"}
UsesDist == {"b"}

Base ==
  [InitSt EXCEPT
    !.dists = [x \in {"s1", "l1"} |->
       [kind |-> IF x = "s1" THEN "spat" ELSE "lum", cls |-> "C", name |-> x,
        canon |-> x, pars |-> <<>>, defs |-> [p |-> 1]]],
    !.samp = [x \in All |->
       [kind |-> IF x = "d" THEN "derived" ELSE "aux", cls |-> "C", name |-> x,
        canon |-> x, pars |-> <<>>, defs |-> [p |-> 1], obs |-> x \in Observed,
        ud |-> x \in UsesDist, ul |-> FALSE, hp |-> FALSE, secs |-> <<>>,
        parents |-> <<>>, sel |-> "unity"]],
    !.sels = [x \in {"k1", "kf"} |->
       [typ |-> "lower", on |-> IF x = "k1" THEN "obs" ELSE "flux", lo |-> 2, hi |-> 2, canon |-> x]],
    !.syn = [y \in Synths |->
       [spat |-> "s1", lum |-> IF y = "y1" THEN "l1" ELSE "none", seed |-> 1,
        aux |-> <<>>, der |-> "none", flux |-> "unity", dist |-> "unity",
        sp |-> "unity", spaces |-> {}]]]

NoObj == [ sampled |-> [x \in All |-> FALSE],
           t |-> [x \in All |-> "-"], o |-> [x \in All |-> "-"],
           \* size when drawn, selection kept
           n |-> [x \in All |-> -1],
           nodes |-> [y \in Synths |-> {}], edges |-> [y \in Synths |-> {}],
           pops |-> <<>> ]

-----------------------------------------------------------------------------
(* the algorithm; m = [o: obj, ev: events so far] *)

Num(s) == CASE s = "a" -> 0 [] s = "b" -> 1 [] s = "c" -> 2 [] OTHER -> 3
ParOf(s) == IF "p" \in DOMAIN st.samp[s].pars THEN st.samp[s].pars["p"] ELSE 1
ObsVal(s, i) == (i + Num(s) + ParOf(s)) % 4

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN "" ELSE Head(q) \o "," \o Cat(Tail(q))

TrueTok(s, o, d, lum) ==
  s \o ToString(ParOf(s)) \o "("
    \o Cat([i \in 1..Len(st.samp[s].secs) |->
              o.t[st.samp[s].secs[i]] \o "/" \o o.o[st.samp[s].secs[i]]])
    \o d \o ")"

RECURSIVE ResetTree(_, _)
ResetTree(o, s) ==
  LET o1 == [o EXCEPT !.sampled[s] = FALSE, !.t[s] = "-", !.o[s] = "-", !.n[s] = -1]
      c  == st.samp[s].secs
      F[i \in 0..Len(c)] == IF i = 0 THEN o1 ELSE ResetTree(F[i-1], c[i])
  IN  F[Len(c)]

ResetAll(o, S) ==
  LET q == SetToSeq(S)
      F[i \in 0..Len(q)] == IF i = 0 THEN o ELSE ResetTree(F[i-1], q[i])
  IN  F[Len(q)]

RECURSIVE DrawS(_, _, _, _, _)
DrawS(m, s, n, d, lum) ==
  IF m.o.sampled[s] /\ Bug # "redraw" THEN m
  ELSE
  LET c == st.samp[s].secs
      Deps(mm) == [mm EXCEPT !.o = mm.o]
      F[i \in 0..Len(c)] == IF i = 0 THEN m ELSE DrawS(F[i-1], c[i], n, d, lum)
      m1 == IF Bug = "parentfirst" THEN m ELSE F[Len(c)]
      tok == TrueTok(s, m1.o, d, lum)
      otok == IF st.samp[s].obs THEN "o" \o tok ELSE tok
      deps == [i \in 1..Len(c) |-> [s |-> c[i], t |-> m1.o.t[c[i]], o |-> m1.o.o[c[i]]]]
      e1 == [op |-> "call", ph |-> "true", s |-> s, size |-> n, vals |-> tok,
             deps |-> deps, dist |-> d, theta |-> "th", phi |-> "ph", lum |-> lum]
      e2 == [op |-> "call", ph |-> "obs", s |-> s, size |-> n, true |-> tok, vals |-> otok]
      evs == Append(m1.ev, e1)
      m2 == [o |-> [m1.o EXCEPT !.sampled[s] = TRUE, !.t[s] = tok, !.o[s] = otok, !.n[s] = n],
             ev |-> IF st.samp[s].obs THEN Append(evs, e2) ELSE evs]
      G[i \in 0..Len(c)] == IF i = 0 THEN m2 ELSE DrawS(G[i-1], c[i], n, d, lum)
  IN  IF Bug = "parentfirst" THEN G[Len(c)] ELSE m2

TruthOf(y) ==
  LET A == CASE Bug = "shallowtruth" ->
                  Roots(st, y) \cup UNION {Range(st.samp[r].secs) : r \in Roots(st, y)}
             [] OTHER -> Attached(st, y)
      names == {"s1"} \cup A \cup (IF HasDer(st, y) THEN {} ELSE {"l1"})
  IN  [k \in names |-> IF k \in All THEN st.samp[k].pars ELSE st.dists[k].pars]

SelectedBy(y, i, flux) ==
  LET S == IF Bug = "flatsel" THEN Roots(st, y) ELSE Attached(st, y)
  IN  /\ \A s \in S : IsUnity(st, st.samp[s].sel) \/ ObsVal(s, i) >= st.sels["k1"].lo
      /\ IsUnity(st, st.syn[y].flux) \/ flux[i] >= st.sels["kf"].lo

Observe(y, n, m, d, lum, truth, nodes, edges, held) ==
  LET A == Attached(st, y)
      idx == [i \in 1..n |-> i]
      flux == [i \in 1..n |-> (i * 2) % 3]
      sel == [i \in 1..n |-> SelectedBy(y, i, flux)]
      det == Cardinality({i \in 1..n : sel[i]})
      dets == SelectSeq(idx, LAMBDA i : sel[i])
      names == A
  IN
  [ op |-> "draw_end", ok |-> TRUE, err |-> "", syn |-> y, full |-> TRUE, seen |-> TRUE,
    n |-> n, ndet |-> det, nnon |-> n - det, has |-> det > 0,
    len |-> [k \in ArrayNames |-> n],
    dig |-> [lum |-> lum, lumlat |-> lum, dist |-> d, distlat |-> d, theta |-> "th",
             phi |-> "ph", flat |-> "F" \o lum \o d, fobs |-> "F" \o lum \o d,
             trans |-> "F" \o lum \o d],
    sigma |-> -1, nosigma |-> -1, zero |-> 0, fobspos |-> TRUE,
    radiff |-> 0, decdiff |-> 0, angles |-> TRUE,
    aux |-> [k \in names |->
       [t |-> m.o.t[k], o |-> m.o.o[k], lt |-> m.o.n[k], lo |-> m.o.n[k],
        obs |-> [i \in 1..n |-> ObsVal(k, i)], tru |-> idx]],
    sel |-> sel, selcount |-> det, absb |-> <<>>,
    val |-> [lum |-> idx, dist |-> idx, flat |-> flux, fobs |-> flux, theta |-> idx,
             phi |-> idx, prob |-> idx],
    rep |-> [k \in RepNames(st, y) |-> sel],
    known |-> dets, kidx |-> [j \in 1..det |-> j - 1], uidx |-> <<>>,
    nk |-> <<det, det, 0>>, views |-> <<>>,
    denied |-> SetToSeq(names), truth |-> truth,
    graph |-> [nodes |-> SetToSeq(nodes), edges |-> SetToSeq(edges)], directed |-> TRUE,
    lf |-> IF HasLum(st, y) THEN st.dists["l1"].pars ELSE <<>>,
    spp |-> st.dists["s1"].pars,
    digest |-> d \o lum \o Cat([i \in 1..Cardinality(A) |-> m.o.o[SetToSeq(A)[i]]])
                 \o ToString(sel),
    lg |-> [on |-> FALSE], held |-> held ]

RECURSIVE DrawAux(_, _, _, _, _)
DrawAux(m, q, n, d, lum) ==
  IF q = <<>> THEN m ELSE DrawAux(DrawS(m, Head(q), n, d, lum), Tail(q), n, d, lum)

(* [o: objects afterwards, ev: events] *)
AlgDraw(y, n) ==
  LET begin == [op |-> "draw_begin", syn |-> y, n |-> n, norm |-> FALSE,
                hassig |-> FALSE, sigma |-> 0, log10 |-> TRUE]
      fail == [op |-> "draw_end", ok |-> FALSE, err |-> "refused", syn |-> y, full |-> FALSE,
               seen |-> FALSE, held |-> obj.pops]
      d == "D" \o ToString(n)
      o0 == IF Bug = "noreset" THEN obj
            ELSE IF Bug = "shallowreset"
            THEN [obj EXCEPT !.sampled = [x \in All |-> IF x \in Roots(st, y) THEN FALSE ELSE @[x]]]
            ELSE ResetAll(obj, Roots(st, y))
      e0 == << begin, [op |-> "dist", size |-> n, dist |-> d],
               [op |-> "sky", size |-> n, theta |-> "th", phi |-> "ph"] >>
      m0 == [o |-> o0, ev |-> e0]
      ders == st.syn[y].der
      mder == IF HasDer(st, y)
              THEN LET m1 == DrawS(m0, ders, n, d, "-")
                       lm == "L" \o m1.o.t[ders]
                       c == st.samp[ders].secs
                   IN  [m |-> [m1 EXCEPT !.ev = Append(@,
                          [op |-> "derive", s |-> ders, lum |-> lm, true |-> m1.o.t[ders],
                           deps |-> [i \in 1..Len(c) |->
                              [s |-> c[i], t |-> m1.o.t[c[i]], o |-> m1.o.o[c[i]]]]])],
                        lum |-> lm]
              ELSE [m |-> [m0 EXCEPT !.ev = Append(@,
                      [op |-> "lumdraw", size |-> n, lum |-> "l1" \o ToString(n)])],
                    lum |-> "l1" \o ToString(n)]
      m2 == DrawAux(mder.m, st.syn[y].aux, n, d, mder.lum)
      nodes == GraphNodes(st, y) \cup (IF Bug = "stalegraph" THEN obj.nodes[y] ELSE {})
      edges == GraphEdges(st, y) \cup (IF Bug = "stalegraph" THEN obj.edges[y] ELSE {})
      pops == Append(obj.pops, "P" \o ToString(Len(obj.pops)))
      obs == Observe(y, n, m2, d, mder.lum, TruthOf(y), nodes, edges, pops)
  IN
  IF ~(HasLum(st, y) \/ HasDer(st, y))
     \/ (Bug # "acceptsecondary" /\ \E a \in Range(st.syn[y].aux) : st.samp[a].parents # <<>>)
  THEN [o |-> obj, ev |-> <<begin, fail>>]
  ELSE [o |-> [m2.o EXCEPT !.nodes[y] = nodes, !.edges[y] = edges, !.pops = pops],
        ev |-> Append(m2.ev, obs)]

RECURSIVE Run(_, _, _)
Run(s, q, b) ==
  IF q = <<>> THEN [st |-> s, bad |-> b]
  ELSE Run(Apply(s, Head(q)), Tail(q), b \cup Check(s, Head(q)))

-----------------------------------------------------------------------------

(* one call: the outcome is what the package is meant to do *)
Api(op, newobj) ==
  LET e0 == Merge([ok |-> TRUE, err |-> "", held |-> obj.pops, same |-> TRUE, pure |-> TRUE], op)
      e == [e0 EXCEPT !.ok = Accepts(st, e0)]
  IN  /\ st' = Apply(st, e)
      /\ bad' = bad \cup Check(st, e)
      /\ obj' = newobj
      /\ hist' = Append(hist, op)

Left(o, S) == SetToSeq({s \in S : o.t[s] # "-"})

Going == Len(hist) < Depth

Sec == \E p \in All, c \in Samplers :
  /\ p # c /\ p \notin Under(st, c) /\ c \notin Range(st.samp[p].secs)
  /\ Api([op |-> "sec", parent |-> p, child |-> c], obj)

Add == \E y \in Synths, s \in All :
  Api([op |-> "add", syn |-> y, what |-> s], obj)

SetSel == \E s \in All :
  /\ IsUnity(st, st.samp[s].sel)
  /\ \A z \in All : st.samp[z].sel # "k1"
  /\ Api([op |-> "setsel", s |-> s, sel |-> "k1"], obj)

SetRole == \E y \in Synths :
  /\ st.syn[y].flux = "unity"
  /\ Api([op |-> "setrole", syn |-> y, role |-> "flux", sel |-> "kf"], obj)

SetPar == \E s \in All :
  /\ ParOf(s) = 1
  /\ Api([op |-> "set_par", id |-> s, p |-> "p", v |-> 2], obj)

Clean == \E y \in Synths, r \in BOOLEAN :
  LET A == Attached(st, y)
      o == IF r THEN ResetAll(obj, Roots(st, y)) ELSE obj
  IN  Api([op |-> "clean", syn |-> y, reset |-> r, remain |-> <<>>,
           left |-> IF r THEN Left(o, A) ELSE <<>>], o)

Reset == \E s \in All :
  /\ obj.sampled[s]
  /\ LET o == ResetTree(obj, s)
     IN  Api([op |-> "reset_sampler", s |-> s, left |-> Left(o, {s} \cup Under(st, s))], o)

Draw == \E y \in Synths, n \in {0, 2} :
  LET a == AlgDraw(y, n)
      r == Run(st, a.ev, {})
  IN  /\ st' = r.st
      /\ bad' = bad \cup r.bad
      /\ obj' = a.o
      /\ hist' = Append(hist, [op |-> "draw", syn |-> y, n |-> n])

Finish ==
  /\ Emit /\ Len(hist) = Depth
  /\ PrintT("SCRIPT " \o ToJson(hist))
  /\ UNCHANGED <<st, obj, bad>>
  /\ hist' = Append(hist, [op |-> "end"])

Init == st = Base /\ obj = NoObj /\ bad = {} /\ hist = <<>>

Next == \/ Going /\ (Sec \/ Add \/ SetSel \/ SetRole \/ SetPar \/ Clean \/ Reset \/ Draw)
        \/ Finish

Spec == Init /\ [][Next]_vars

View == <<st, obj, bad, Len(hist)>>

-----------------------------------------------------------------------------
(* properties *)

NoViolation == bad = {}

Acyclic == \A s \in All : s \notin Under(st, s)

(* the same configuration never has two surveys *)
OneSurvey ==
  \A i, j \in 1..Len(st.memo) : st.memo[i].k = st.memo[j].k => st.memo[i].d = st.memo[j].d

PrimariesAreNotSecondaries ==
  \A y \in Synths : Drawable(st, y) =>
     \A a \in Range(st.syn[y].aux) : st.samp[a].parents = <<>>

NamesUnique ==
  \A y \in Synths : \A i, j \in 1..Len(st.syn[y].aux) :
     i # j => st.syn[y].aux[i] # st.syn[y].aux[j]
=============================================================================
