----------------------------- MODULE ConfigAlg -----------------------------
(***************************************************************************)
(* How synths are kept as objects, exported and rebuilt: an export walks    *)
(* the tree of samplers into a flat list with names of secondaries, and a   *)
(* synth is rebuilt by making every sampler, connecting those named as      *)
(* secondaries and adding the others.  Every history of Depth calls on a    *)
(* few synths is judged by Config!Check.                                    *)
(***************************************************************************)
EXTENDS Config, TLC, Json

CONSTANTS Bug, Depth, Emit, MaxSynths, MaxDocs, Shapes0

VARIABLES st, syn, docs, heap, bad, hist
vars == <<st, syn, docs, heap, bad, hist>>

None == [name |-> "none", pars |-> Empty]
Smp(sec, uses, o) == [ type |-> "T", observed |-> o, pars |-> [mu |-> 1], secondary |-> sec,
                       sel |-> [name |-> "Box", pars |-> [vmin |-> 0], uses |-> uses] ]
\* shapes of synths
Desc(k) ==
  [ seed |-> k,
    spatial |-> [name |-> "Z", pars |-> [Lambda |-> 1], rate |-> IF k % 2 = 0 THEN "no" ELSE "yes"],
    lum |-> IF k = 2 THEN None ELSE [name |-> "P", pars |-> [alpha |-> 1]],
    flux |-> IF k = 1 THEN [name |-> "Hard", pars |-> [boundary |-> 1]] ELSE None,
    dist |-> None, space |-> None,
    aux |-> CASE k = 1 -> <<"b", "a">> [] k = 2 -> <<"a">> [] OTHER -> <<>>,
    derived |-> IF k = 2 THEN "z" ELSE "none",
    samplers |->
      CASE k = 1 -> [a |-> Smp(<<>>, <<"obs">>, TRUE), b |-> Smp(<<"d", "c">>, <<"dist">>, FALSE),
                     c |-> Smp(<<"e">>, <<"obs">>, TRUE), d |-> Smp(<<>>, <<"obs">>, FALSE),
                     e |-> Smp(<<>>, <<"obs">>, TRUE)]
        [] k = 2 -> [a |-> Smp(<<>>, <<"lum">>, TRUE), z |-> Smp(<<"y">>, <<"obs">>, FALSE),
                     y |-> Smp(<<>>, <<"obs">>, TRUE)]
        [] OTHER -> Empty ]

\* a synth: its configuration but for the spatial parameters, which are in
\* an object of the heap
New(h, d) == [h |-> Append(h, d.spatial.pars), s |-> [d EXCEPT !.spatial.pars = Len(h) + 1]]
ConfOf(h, s) == [s EXCEPT !.spatial.pars = h[@]]

\* the flat list: parents before their secondaries, depth first
RECURSIVE Walk(_, _)
Walk(smp, names) ==
  IF names = <<>> THEN <<>>
  ELSE LET n == Head(names)
           sec == IF Bug = "flat" THEN <<>> ELSE smp[n].secondary
       IN  <<n>> \o Walk(smp, sec) \o Walk(smp, Tail(names))

Sorted(s) == IF Bug # "sorted" THEN s ELSE
  CHOOSE p \in [1..Len(s) -> ToSet(s)] :
    ToSet(p) = ToSet(s) /\ \A i, j \in 1..Len(s) : i < j =>
      Index(<<"a", "b", "c", "d", "e", "y", "z">>, p[i]) <= Index(<<"a", "b", "c", "d", "e", "y", "z">>, p[j])

Export(c) ==
  LET tops == c.aux \o (IF c.derived = "none" THEN <<>> ELSE <<c.derived>>)
  IN  [ conf |-> [c EXCEPT !.spatial.rate = IF Bug = "norate" THEN "yes" ELSE @,
                           !.samplers = [n \in DOMAIN @ |->
                              IF Bug = "nouses" THEN [@[n] EXCEPT !.sel.uses = <<"obs">>] ELSE @[n]]],
        list |-> Sorted(Walk(c.samplers, tops)) ]

\* the samplers named as secondaries anywhere are not added to the synth
Secondaries(x) == UNION {ToSet(x.conf.samplers[x.list[i]].secondary) : i \in 1..Len(x.list)}
Tops(x) == SelectSeq(x.list, LAMBDA n : n \notin Secondaries(x) /\ n # x.conf.derived)
Rebuilt(x) ==
  LET c == x.conf
      keep == ToSet(x.list)
      smp == [n \in keep |->
                CASE Bug = "firstsecondary" /\ c.samplers[n].secondary # <<>> ->
                       [c.samplers[n] EXCEPT !.secondary = <<Head(@)>>]
                  [] OTHER -> c.samplers[n]]
  IN  [c EXCEPT !.aux = Tops(x), !.samplers = smp,
                !.derived = IF Bug = "derivedlost" THEN "none" ELSE @,
                !.seed = IF Bug = "noseed" THEN 1234 ELSE @]

\* what a view of the synth shows: its export, read again
Shown(c) == LET x == Export(c)
            IN  [x.conf EXCEPT !.aux = Tops(x), !.samplers = [n \in ToSet(x.list) |-> x.conf.samplers[n]]]
\* the survey depends on everything
Dig(c, o) == <<c, o>>

Name(p, f) == p \o ToString(Cardinality(DOMAIN f) + 1)
Script(e) == [x \in DOMAIN e \ {"d", "c", "dig", "ok", "unchanged"} |-> e[x]]
Do(ev, h, s, d) ==
  /\ bad' = bad \cup Check(st, ev) /\ st' = Apply(st, ev) /\ heap' = h /\ syn' = s /\ docs' = d
  /\ hist' = Append(hist, Script(ev))
Room == Cardinality(DOMAIN syn) < MaxSynths

Call ==
  /\ Len(hist) < Depth
  /\ \/ /\ Room
        /\ \E k \in Shapes0 :
             LET n == New(heap, Desc(k)) y == Name("y", syn)
             IN  Do([op |-> "make", y |-> y, kind |-> k, d |-> Desc(k)], n.h, With(syn, y, n.s), docs)
     \/ \E y \in DOMAIN syn : \E how \in {"dict", "file"} :
          /\ Cardinality(DOMAIN docs) < MaxDocs
          /\ LET c == ConfOf(heap, syn[y]) x == Name("x", docs)
             IN  Do([op |-> "export", y |-> y, x |-> x, how |-> how, ok |-> TRUE, c |-> Shown(c)],
                    heap, syn, With(docs, x, [doc |-> Export(c), how |-> how, h |-> syn[y].spatial.pars]))
     \/ /\ Room
        /\ \E x \in DOMAIN docs :
             LET y == Name("y", syn)
                 r == Rebuilt(docs[x].doc)
                 n == New(heap, r)
                 shared == Bug = "shared" /\ docs[x].how = "dict"
             IN  Do([op |-> "build", y |-> y, x |-> x, ok |-> TRUE, unchanged |-> Bug # "pops"],
                    n.h, With(syn, y, IF shared THEN [n.s EXCEPT !.spatial.pars = docs[x].h] ELSE n.s),
                    docs)
     \/ \E y \in DOMAIN syn :
          /\ heap[syn[y].spatial.pars].Lambda < 2
          /\ Do([op |-> "tune", y |-> y, where |-> "spatial", name |-> "", par |-> "Lambda", v |-> 2],
                [heap EXCEPT ![syn[y].spatial.pars].Lambda = 2], syn, docs)
     \/ \E y \in DOMAIN syn :
          LET c == ConfOf(heap, syn[y])
          IN  Do([op |-> "draw", y |-> y, opts |-> "o1", ok |-> TRUE, dig |-> Dig(c, "o1"), c |-> Shown(c)],
                 heap, syn, docs)

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, syn, docs, heap, bad>> /\ hist' = Append(hist, [op |-> "end"])

Init == st = InitSt /\ syn = Empty /\ docs = Empty /\ heap = <<>> /\ bad = {} /\ hist = <<>>
Next == Call \/ Finish
View == <<st, syn, docs, heap, bad, Len(hist)>>

NoViolation == bad = {}
Agree == \A y \in DOMAIN syn : y \in DOMAIN st.y /\ Differ(st.y[y], ConfOf(heap, syn[y])) = {}
=============================================================================
