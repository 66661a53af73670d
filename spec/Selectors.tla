----------------------------- MODULE Selectors -----------------------------
(***************************************************************************)
(* Selectors on their own: what they accept, when they decide, and how     *)
(* they combine.  Values and parameters are ranks (order is what matters,  *)
(* -1 is not a number); a selector reads one quantity of the objects.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

Random == {"BernoulliSelection", "SoftSelection", "SoftFluxSelection"}

InitSt == [ s |-> <<>>, zero |-> 0, one |-> 0 ]

\* the documented rule for the value v of an object
Rule(r, v) ==
  CASE r.cls \in {"LowerBound", "HardFluxSelection"} -> v >= r.pars.boundary
    [] r.cls = "UpperBound" -> v >= 0 /\ v <= r.pars.boundary
    [] r.cls = "BoxSelection" -> v >= r.pars.vmin /\ v <= r.pars.vmax
    [] r.cls = "DistanceSelection" -> v >= r.pars.min_distance /\ v <= r.pars.max_distance
    \* v is the distance of the object from the galactic plane
    [] r.cls = "GalacticPlaneSelection" -> v >= r.pars.b_limit
    [] OTHER -> TRUE

Values(r) == r.vals[r.use]

\* the result of a selector made now, which the random ones report themselves
Result(st, r, e) ==
  CASE r.cls = "UnitySelection" -> [i \in 1..e.n |-> TRUE]
    [] r.cls \in Random -> e.reads[e.id].sel
    [] r.cls = "GalacticPlaneSelection" ->
         [i \in 1..e.n |-> IF e.skip[i] THEN e.reads[e.id].sel[i] ELSE Rule(r, Values(r)[i])]
    [] OTHER -> [i \in 1..e.n |-> Rule(r, Values(r)[i])]

New(e) == [ cls |-> e.cls, use |-> e.use, pars |-> <<>>, vals |-> <<>>,
            made |-> FALSE, sel |-> <<>> ]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Apply(st, e) ==
  CASE e.op = "reset" -> [InitSt EXCEPT !.zero = e.zero, !.one = e.one]
    [] e.op = "new" -> [st EXCEPT !.s = Put(@, e.id, New(e))]
    [] e.op = "set" -> [st EXCEPT !.s[e.id].pars = Put(@, e.par, e.v)]
    [] e.op = "give" -> [st EXCEPT !.s[e.id].vals = Put(@, e.q, e.vals)]
    [] e.op = "select" /\ ~st.s[e.id].made /\ e.reads[e.id].has
                       /\ Len(e.reads[e.id].sel) = e.n ->
         [st EXCEPT !.s[e.id].made = TRUE, !.s[e.id].sel = Result(st, st.s[e.id], e)]
    [] e.op = "unmake" -> [st EXCEPT !.s[e.id].made = FALSE, !.s[e.id].sel = <<>>]
    [] e.op = "add" /\ st.s[e.a].made /\ st.s[e.b].made ->
         [st EXCEPT !.s = Put(@, e.id,
           [ cls |-> "Combined", use |-> "none", pars |-> <<>>, vals |-> <<>>, made |-> TRUE,
             sel |-> [i \in 1..Len(st.s[e.a].sel) |-> st.s[e.a].sel[i] /\ st.s[e.b].sel[i]] ])]
    [] OTHER -> st

Count(s, b) == Cardinality({i \in 1..Len(s) : s[i] = b})

RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, b, i) == IF i > Len(s) THEN <<>>
                      ELSE (IF s[i] = b THEN <<i - 1>> ELSE <<>>) \o IndexFrom(s, b, i + 1)

CheckRead(st, r, id) ==
  IF ~st.s[id].made THEN If(~r.has, "C19:a selector has a result before it is made")
  ELSE If(r.has, "C19:a selector has no result after it was made")
       \cup (IF r.has
             THEN If(r.sel = st.s[id].sel, "C19:a selector decides otherwise")
                  \cup If(r.n = Len(r.sel), "C19:the number of objects is wrong")
                  \cup If(r.nsel = Count(r.sel, TRUE) /\ r.nnon = Count(r.sel, FALSE),
                          "C19:the counts are wrong")
                  \cup If(r.idx = IndexFrom(r.sel, TRUE, 1)
                            /\ r.nonidx = IndexFrom(r.sel, FALSE, 1),
                          "C19:the index lists are wrong")
             ELSE {})

\* k of n independent trials of probability p/q are within six sigma
Law(k, n, p, q) ==
  IF p = 0 THEN k = 0 ELSE IF p = q THEN k = n
  ELSE LET d == Abs(k * q - n * p) IN d <= 46340 /\ d * d <= 36 * n * p * (q - p)

CheckStep(st, e) ==
  CASE e.op = "select" ->
         If(e.ok, "C19:making a selection fails")
         \cup (IF e.ok /\ ~st.s[e.id].made /\ e.reads[e.id].has
               THEN LET r == st.s[e.id]
                        got == e.reads[e.id].sel
                    IN  If(Len(got) = e.n, "C19:a selection has another length")
                        \cup (IF r.cls = "BernoulliSelection" /\ r.pars.probability = st.zero
                              THEN If(\A i \in 1..Len(got) : ~got[i], "C19:accepted with probability zero") ELSE {})
                        \cup (IF r.cls = "BernoulliSelection" /\ r.pars.probability = st.one
                              THEN If(\A i \in 1..Len(got) : got[i], "C19:refused with probability one") ELSE {})
               ELSE {})
    [] e.op = "unmake" -> If(e.ok, "C19:resetting fails")
    [] e.op = "add" ->
         IF st.s[e.a].made /\ st.s[e.b].made
         THEN If(e.ok, "C19:combining selections fails")
         ELSE If(~e.ok, "C19:selections without a result were combined")
    [] e.op = "law" -> If(Law(e.k, e.n, e.p, e.q), "C19:" \o e.what)
    [] OTHER -> {}

Check(st, e) ==
  IF e.op = "reset" THEN {}
  ELSE CheckStep(st, e)
       \cup (LET t == Apply(st, e)
             IN  UNION {CheckRead(t, e.reads[id], id) : id \in DOMAIN t.s \cap DOMAIN e.reads})
=============================================================================
