------------------------------- MODULE Display -------------------------------
(***************************************************************************)
(* Plots and tables of populations and synths.  The state is the           *)
(* populations (their arrays, as ranks), the axes with the layers that      *)
(* were put on them, and the synths with what is attached to them.          *)
(* A layer is a sequence of points of one colour; points have no order.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

If(c, name) == IF c THEN {} ELSE {name}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InitSt == [ pops |-> <<>>, axes |-> <<>>, synths |-> <<>> ]

\* the indices of selected and hidden objects, in order
RECURSIVE Which(_, _, _)
Which(sel, v, i) == IF i > Len(sel) THEN <<>>
                    ELSE (IF sel[i] = v THEN <<i>> ELSE <<>>) \o Which(sel, v, i + 1)
Seen(p) == Which(p.sel, TRUE, 1)
Hidden(p) == Which(p.sel, FALSE, 1)
All(p) == [i \in 1..p.n |-> i]

Points(x, y, idx) == [i \in 1..Len(idx) |-> <<x[idx[i]], y[idx[i]]>>]

Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Times(s, s[i]) = Times(t, s[i])

\* what a call puts on the axes
Layers(p, kind) ==
  LET true == <<[c |-> "t", pts |-> Points(p.d, p.lat, All(p))]>>
      obs == <<[c |-> "o", pts |-> Points(p.d, p.obs, Seen(p))]>>
  IN  CASE kind = "true" -> true
        [] kind = "obs" -> obs
        [] kind \in {"fluxes", "arrows"} -> true \o obs
        [] kind = "lums" -> <<[c |-> "o", pts |-> Points(p.d, p.lum, Seen(p))], [c |-> "t", pts |-> Points(p.d, p.lum, Hidden(p))]>>
        [] OTHER -> <<>>

\* all points of a colour
RECURSIVE Coloured(_, _)
Coloured(l, c) == IF l = <<>> THEN <<>>
                  ELSE (IF Head(l).c = c THEN Head(l).pts ELSE <<>>) \o Coloured(Tail(l), c)
SameLayers(s, t) == /\ \A i \in 1..Len(s) : s[i].c \in {"t", "o"} \/ s[i].pts = <<>>
                    /\ \A c \in {"t", "o"} : SameBag(Coloured(s, c), Coloured(t, c))

\* from the true to the observed flux, for detected objects
Arrows(p, kind) ==
  IF kind # "arrows" THEN <<>>
  ELSE LET s == Seen(p) IN [i \in 1..Len(s) |-> <<p.d[s[i]], p.lat[s[i]], p.obs[s[i]]>>]

\* places are in bins that include their lower edge, the last one also the upper
InBin(v, edges, b) == v >= edges[b] /\ (v < edges[b + 1] \/ (b = Len(edges) - 1 /\ v = edges[b + 1]))
Count(p, idx, edges, b) == Cardinality({i \in 1..Len(idx) : InBin(p.d[idx[i]], edges, b)})

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "pop" -> [st EXCEPT !.pops = Put(@, e.id, e)]
    [] e.op = "axes" -> [st EXCEPT !.axes = Put(@, e.id, <<>>)]
    [] e.op = "show" /\ e.ok /\ ~e.nothing ->
         [st EXCEPT !.axes = Put(@, e.ax, (IF e.ax \in DOMAIN @ THEN @[e.ax] ELSE <<>>)
                                            \o Layers(st.pops[e.id], e.kind))]
    [] e.op = "synth" -> [st EXCEPT !.synths = Put(@, e.id, e)]
    [] OTHER -> st

CheckShow(st, e) ==
  LET p == st.pops[e.id]
      old == IF e.ax \in DOMAIN st.axes THEN st.axes[e.ax] ELSE <<>>
  IN  If(e.ok, "C26:" \o e.kind \o " cannot be displayed: " \o e.err)
      \cup (IF ~e.ok THEN {} ELSE
            If(e.nothing = (e.kind = "obs" /\ Seen(p) = <<>> /\ e.own), "C26:" \o e.kind \o ": another figure is returned")
            \cup (IF e.nothing THEN {} ELSE
                  If(SameLayers(e.layers, old \o Layers(p, e.kind)), "C26:" \o e.kind \o " does not show the objects")
                  \cup If(SameBag(e.arrows, Arrows(p, e.kind)), "C26:arrows do not go from true to observed fluxes")
                  \cup If(e.fig, "C26:" \o e.kind \o " is displayed elsewhere")))
      \cup If(e.same, "C26,C05:displaying changes the population")

CheckHist(st, e) ==
  LET p == st.pops[e.id]
      bars == Len(e.edges) - 1
      is(idx, h) == Len(h) = bars /\ \A b \in 1..bars : h[b] = Count(p, idx, e.edges, b)
  IN  If(e.ok, "C26:distances cannot be displayed: " \o e.err)
      \cup If(~e.ok \/ (Len(e.bars) = 2 /\ is(All(p), e.bars[1]) /\ is(Seen(p), e.bars[2])),
              "C26:histogram does not count the objects")
      \cup If(e.same, "C26,C05:displaying changes the population")

\* positions are compared one by one, colours rise with the flux
Sphere(p, kind) == CASE kind = "obs" -> <<Seen(p)>> [] kind = "hidden" -> <<Hidden(p)>>
                     [] OTHER -> <<Seen(p), Hidden(p)>>
CheckSphere(st, e) ==
  LET p == st.pops[e.id]
      parts == SelectSeq(Sphere(p, e.kind), LAMBDA s : s # <<>>)
      points(idx) == [i \in 1..Len(idx) |-> <<e.x[idx[i]], e.y[idx[i]], e.z[idx[i]]>>]
  IN  If(e.ok, "C26:the sphere cannot be displayed: " \o e.err)
      \cup (IF ~e.ok THEN {} ELSE
            If(e.nothing = (parts = <<>>), "C26:the sphere is not returned")
            \cup (IF e.nothing THEN {} ELSE
                  If(/\ Len(e.layers) = Len(parts)
                     /\ \A k \in 1..Len(parts) : SameBag(e.layers[k], points(parts[k])),
                     "C26:the sphere does not show the objects")
                  \cup If(Len(e.layers) = Len(parts) => \A k \in 1..Len(parts) :
                            LET s == parts[k]
                                c == e.col[k]
                            IN  Len(c) = Len(s) =>
                                 \A i, j \in 1..Len(s) :
                                    e.layers[k] = points(s) /\ p.obs[s[i]] <= p.obs[s[j]] => c[i] >= 0 /\ c[i] <= c[j],
                          "C26:colours do not rise with the flux")))
      \cup If(e.same, "C26,C05:displaying changes the population")

CheckInfo(st, e) ==
  LET p == st.pops[e.id]
  IN  If(e.ok, "C26:the population cannot be displayed: " \o e.err)
      \cup If(~e.ok \/ e.counts = <<Len(Seen(p)), p.n>>, "C26:the numbers displayed are others")
      \cup If(~e.ok \/ (\A k \in DOMAIN p.pars : k \in DOMAIN e.pars /\ e.pars[k] = p.pars[k]),
              "C26:the parameters displayed are others")
      \cup If(~e.ok \/ e.repr = <<p.n, Len(Seen(p)), Len(Hidden(p))>>, "C26:the representation has other numbers")
      \cup If(e.same, "C26,C05:displaying changes the population")

\* aux: names attached; secs: names below the derived luminosity sampler
CheckSynth(st, e) ==
  LET y == st.synths[e.id]
      names == {y.aux[i] : i \in 1..Len(y.aux)} \cup {y.secs[i] : i \in 1..Len(y.secs)}
      heads == names \cup {"Spatial Function"} \cup (IF y.lum = "none" THEN {} ELSE {"Luminosity Function"})
  IN  If(e.ok, "C26:the synth cannot be displayed: " \o e.err)
      \cup If(~e.ok \/ (/\ {e.heads[i] : i \in 1..Len(e.heads)} = heads
                        /\ Len(e.heads) = Cardinality(heads)), "C26:the synth is displayed with other parts")
      \cup If(~e.ok \/ \A h \in heads : (h \in DOMAIN y.pars /\ h \in DOMAIN e.pars) =>
                \A k \in DOMAIN y.pars[h] : k \in DOMAIN e.pars[h] /\ e.pars[h][k] = y.pars[h][k],
              "C26:the synth is displayed with other parameters")
      \cup If(~e.ok \/ {e.missing[i] : i \in 1..Len(e.missing)} = {}, "C26:the representation of the synth lacks a part")

Check(st, e) ==
  CASE e.op = "show" -> CheckShow(st, e)
    [] e.op = "hist" -> CheckHist(st, e)
    [] e.op = "sphere" -> CheckSphere(st, e)
    [] e.op = "info" -> CheckInfo(st, e)
    [] e.op = "shown" -> CheckSynth(st, e)
    [] OTHER -> {}
=============================================================================
