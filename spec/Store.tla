------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* Populations and the files they are kept in.  What can be seen of a      *)
(* population is a record                                                   *)
(*   n nd nn has     numbers of objects, detections, others; any detected  *)
(*   sel             the selection                                          *)
(*   vals            observed and latent values of every quantity          *)
(*   known           the known distances                                   *)
(*   fields          everything that is not per object, as exact text      *)
(*   nodes edges     the graph                                             *)
(*   stan            what is exported for Stan                             *)
(*   logs            log10 of the observed fluxes of the detected objects  *)
(* A file is a function from groups to such records, "" being the file     *)
(* itself, which every file written by writeto has.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}
Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE IndexFrom(_, _, _)
IndexFrom(s, v, i) == IF i > Len(s) THEN <<>>
                      ELSE (IF s[i] = v THEN <<i>> ELSE <<>>) \o IndexFrom(s, v, i + 1)
Pick(s, idx) == [j \in 1..Len(idx) |-> s[idx[j]]]
Chosen(s, mask) == Pick(s, IndexFrom(mask, TRUE, 1))
Not(mask) == [i \in 1..Len(mask) |-> ~mask[i]]

\* s are the model spaces asked of the current synth
InitSt == [ p |-> [x \in {} |-> 0], f |-> [x \in {} |-> 0], dirs |-> [x \in {} |-> {}],
            s |-> [x \in {} |-> <<>>] ]
With(g, k, v) == [x \in DOMAIN g \cup {k} |-> IF x = k THEN v ELSE g[x]]

\* names a population itself uses in its group
Reserved == {"distances", "truth", "graph", "selection", "popsynth", "model_spaces"}

---------------------------------------------------------------------------
(* One population *)

KIdx(d) == d.stan.z_idx
NIdx(d) == d.stan.z_nidx

\* every quantity has one value per object, and the counts are those of the
\* selection
Whole(d) ==
  /\ Len(d.sel) = d.n
  /\ d.nd = Len(IndexFrom(d.sel, TRUE, 1)) /\ d.nn = d.n - d.nd
  /\ d.has = (d.nd > 0)
  /\ \A q \in DOMAIN d.vals : Len(d.vals[q].obs) = d.n /\ Len(d.vals[q].lat) = d.n

CheckStan(d) == IF ~d.exported THEN {"C12:there are no Stan data"} ELSE
  LET s == d.stan
      det(q) == Chosen(d.vals[q].obs, d.sel)
      dist == det("distances")
  IN  If(s.N = d.nd, "C12:the number of detections")
      \cup If(s.Nz = Len(d.known) /\ s.Nz = Len(s.z_idx), "C12:the number of known distances")
      \cup If(s.Nnz = Len(s.z_nidx) /\ s.Nz + s.Nnz = d.nd, "C12:the number of unknown distances")
      \cup If(Range(s.z_idx) \cup Range(s.z_nidx) = 1..d.nd
              /\ Range(s.z_idx) \cap Range(s.z_nidx) = {}, "C12:the indices do not cover the detections")
      \cup If(s.r_idx = s.z_idx /\ s.r_nidx = s.z_nidx, "C12:the indices of redshifts and distances")
      \cup If(s.z_obs = dist /\ s.r_obs = dist, "C12:the selected distances")
      \cup If(s.known_z_obs = d.known /\ s.known_r_obs = d.known, "C12:the known distances")
      \cup If(Range(s.z_idx) \subseteq 1..Len(dist) => Pick(dist, s.z_idx) = d.known,
              "C12:the known indices do not point to the known distances")
      \cup If(s.flux_obs = det("fluxes"), "C12:the observed fluxes")
      \cup If(s.log_flux_obs = d.logs, "C12:the logarithms of the observed fluxes")
      \cup If(\A q \in DOMAIN d.vals : q \in DOMAIN d.aux =>
                /\ d.aux[q] \in DOMAIN s.aux /\ s.aux[d.aux[q]] = det(q),
              "C12:the auxiliary quantities")
      \cup If(s.flux_sigma = d.flux_sigma, "C12:the flux error")
      \cup If(s.z_max = d.r_max /\ s.r_max = d.r_max, "C12:the maximum distance")
      \cup If(s.n_model = d.n_model /\ s.spaces = d.spaces, "C12:the model spaces")

CheckNew(d, prop) ==
  If(Whole(d), prop \o ":the counts and lengths of a population") \cup CheckStan(d)

\* where two populations differ
Differ(d, e) ==
     (IF d.n = e.n /\ d.nd = e.nd /\ d.nn = e.nn /\ d.has = e.has THEN {} ELSE {"counts"})
     \cup (IF d.sel = e.sel THEN {} ELSE {"selection"})
     \cup (IF DOMAIN d.vals = DOMAIN e.vals THEN {} ELSE {"quantities"})
     \cup {q \in DOMAIN d.vals \cap DOMAIN e.vals : d.vals[q] # e.vals[q]}
     \cup (IF d.known = e.known THEN {} ELSE {"known distances"})
     \cup (IF DOMAIN d.spaces = DOMAIN e.spaces /\ \A k \in DOMAIN d.spaces : d.spaces[k] = e.spaces[k]
           THEN {} ELSE {"model spaces"})
     \cup (IF KIdx(d) = KIdx(e) THEN {} ELSE {"known indices"})
     \cup (IF Range(NIdx(d)) = Range(NIdx(e)) /\ Len(NIdx(d)) = Len(NIdx(e))
           THEN {} ELSE {"unknown indices"})
     \cup {k \in DOMAIN d.fields \cup DOMAIN e.fields :
             ~(k \in DOMAIN d.fields \cap DOMAIN e.fields /\ d.fields[k] = e.fields[k])}
     \cup (IF Range(d.nodes) = Range(e.nodes) /\ Range(d.edges) = Range(e.edges)
           THEN {} ELSE {"graph"})

Same(d, e, prop, what) == {prop \o ":" \o what \o ": " \o x : x \in Differ(d, e)}

\* the population of the chosen objects; its export follows by CheckStan
SubOf(d, observed) ==
  LET mask == IF observed THEN d.sel ELSE Not(d.sel)
      k == Len(IndexFrom(mask, TRUE, 1))
  IN  [d EXCEPT !.n = k, !.nd = k, !.nn = 0, !.has = (k > 0),
                !.sel = [i \in 1..k |-> TRUE],
                !.vals = [q \in DOMAIN d.vals |->
                            [ obs |-> Chosen(d.vals[q].obs, mask), lat |-> Chosen(d.vals[q].lat, mask) ]],
                !.known = IF observed THEN @ ELSE <<>>,
                !.stan.z_idx = IF observed THEN @ ELSE <<>>,
                !.stan.z_nidx = IF observed THEN @ ELSE [i \in 1..k |-> i]]

\* as it is kept in a file of an older version, which lacks some things
OldOf(d, gone) ==
  LET k == IF "known" \notin gone THEN d
           ELSE [d EXCEPT !.known = <<>>, !.stan.z_idx = <<>>,
                          !.stan.z_nidx = [i \in 1..d.nd |-> i]]
  IN  IF "probability" \notin gone THEN k
      ELSE [k EXCEPT !.vals = [q \in DOMAIN k.vals \ {"probability"} |-> k.vals[q]],
                     !.fields = [x \in DOMAIN k.fields |->
                                   IF x = "probability" THEN "True" ELSE k.fields[x]]]

---------------------------------------------------------------------------
(* Populations of too many objects to be looked at in full: digests of the  *)
(* values, and some places picked at random                                 *)

CheckMany(d, prop) ==
  If(d.nd + d.nn = d.n /\ d.nsel = d.nd /\ \A i \in 1..Len(d.lens) : d.lens[i] = d.n,
     prop \o ":the counts and lengths of a big population")
  \cup If(d.N = d.nd /\ d.Nz + d.Nnz = d.nd /\ d.Nz = d.lz /\ d.Nnz = d.ln /\ d.Nz = d.lk,
          "C12:the numbers of a big population")
  \cup If(d.lo >= 1 /\ d.hi <= d.N /\ d.distinct = d.N, "C12:the indices do not cover the detections")
  \cup If(d.known = d.there, "C12:the known indices do not point to the known distances")
  \cup If(d.logs = d.slogs, "C12:the logarithms of the observed fluxes")
  \cup If(d.stan = d.want, "C12:what is exported of a big population")

CheckBig(e) ==
  CheckMany(e.a, "C10,C11") \cup CheckMany(e.b, "C10") \cup CheckMany(e.sub, "C11")
  \cup If(e.a = e.b, "C10:a big population is read back differently")
  \cup If(e.sub.n = e.a.nd /\ e.sub.nd = e.a.nd /\ e.subvals = e.sub.keep, "C11:a big sub-population")

---------------------------------------------------------------------------
(* Calls *)

\* up are the groups above the group of a call
InUse(st, f, g) == g \in DOMAIN st.f[f] \/ g \in Reserved \/ g \in st.dirs[f]
CanAdd(st, e) == e.f \in DOMAIN st.f /\ ~InUse(st, e.f, e.g)
CanRead(st, e) == e.f \in DOMAIN st.f /\ e.g \in DOMAIN st.f[e.f]

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "synth" -> [st EXCEPT !.s = InitSt.s]
    [] e.op = "space" /\ e.ok -> [st EXCEPT !.s = With(@, e.name, e.grid)]
    [] e.op = "make" -> [st EXCEPT !.p = With(@, e.p, e.d)]
    [] e.op = "write" -> 
           [st EXCEPT !.f = With(@, e.f, [g \in {""} |-> st.p[e.p]]), !.dirs = With(@, e.f, {})]
    [] e.op = "add" /\ CanAdd(st, e) ->
           [st EXCEPT !.f[e.f] = With(@, e.g, st.p[e.p]), !.dirs[e.f] = @ \cup Range(e.up)]
    [] e.op = "old" /\ CanRead(st, e) -> [st EXCEPT !.f[e.f][e.g] = OldOf(@, Range(e.gone))]
    [] e.op = "read" /\ CanRead(st, e) -> [st EXCEPT !.p = With(@, e.p, st.f[e.f][e.g])]
    [] e.op = "sub" -> [st EXCEPT !.p = With(@, e.q, IF e.ok THEN e.d ELSE SubOf(@[e.p], e.observed))]
    [] OTHER -> st

Check(st, e) ==
  CASE e.op = "space" -> If(e.ok, "C12:a model space cannot be added")
    [] e.op = "make" ->
         CheckNew(e.d, "C10,C11")
         \cup If(e.drawn => DOMAIN e.grids = DOMAIN st.s /\ DOMAIN e.d.spaces = DOMAIN st.s,
                "C12:the model spaces of a survey are not those of its synth")
         \cup If(e.drawn => \A k \in DOMAIN e.grids \cap DOMAIN st.s :
                     e.grids[k] = st.s[k] /\ Len(st.s[k]) = e.d.n_model,
                "C12:a model space is not the grid asked for")
    [] e.op = "look" -> Same(st.p[e.p], e.d, "C10,C11", "a population changed") \cup CheckStan(e.d)
    [] e.op = "write" -> If(e.ok, "C10:a population cannot be written")
    [] e.op = "add" ->
         If(e.ok => CanAdd(st, e), "C10:added where it should be refused")
         \cup If(CanAdd(st, e) => e.ok, "C10:a population cannot be added")
    [] e.op = "read" ->
         If(e.ok => CanRead(st, e), "C10:read what was not written")
         \cup If(CanRead(st, e) => e.ok, "C10:a stored population cannot be read")
         \cup (IF e.ok /\ CanRead(st, e)
               THEN Same(st.f[e.f][e.g], e.d, "C10", "read back") \cup CheckNew(e.d, "C10")
               ELSE {})
    [] e.op = "sub" ->
         If(e.ok, "C11:a sub-population cannot be made")
         \cup (IF e.ok THEN Same(SubOf(st.p[e.p], e.observed), e.d, "C11", "sub-population")
                            \cup CheckNew(e.d, "C11") ELSE {})
    [] e.op = "big" -> CheckBig(e)
    [] OTHER -> {}
=============================================================================
