----------------------------- MODULE PopSynth -----------------------------
(***************************************************************************)
(* The life of population synths: building distributions, samplers,        *)
(* selections and synths, attaching them to each other, drawing surveys,   *)
(* cleaning and resetting.                                                 *)
(*                                                                         *)
(* The state st is what a user has configured, the survey being drawn, and *)
(* what was drawn before.  An event e is one call of the public interface  *)
(* with its outcome, or one step of a survey being drawn: the distances,   *)
(* the sky positions, the luminosities, one sampler drawing its true or    *)
(* its observed values, the luminosities being derived, and the population *)
(* that comes out.                                                         *)
(*                                                                         *)
(*   Apply(st, e)  the state after e                                       *)
(*   Check(st, e)  the clauses of the properties which e violates in st    *)
(*                                                                         *)
(* The same two operators are used by SurveyAlg, where an algorithm for    *)
(* drawing surveys is checked against them for all small configurations    *)
(* and histories, and by PopSynthTrace, where they judge what the real     *)
(* package did.                                                            *)
(*                                                                         *)
(* Numbers are ranks in the order of all numbers of a history (exactly the *)
(* comparisons a selection makes); strings in dig are tokens that are equal*)
(* exactly if the arrays they stand for are.                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Merge(f, g) == [x \in DOMAIN f \cup DOMAIN g |->
                  IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Has(e, k) == k \in DOMAIN e

NoDraw == [on |-> FALSE]

InitSt == [ samp |-> <<>>,   \* id -> sampler
            sels |-> <<>>,   \* id -> selection
            dists |-> <<>>,  \* id -> distribution
            syn  |-> <<>>,   \* id -> synth
            cur  |-> NoDraw, \* survey being drawn
            memo |-> <<>>,   \* configurations drawn and their surveys
            held |-> <<>> ]  \* populations drawn so far

-----------------------------------------------------------------------------
(* configurations *)

IsSamp(st, x) == x \in DOMAIN st.samp
IsSel(st, x) == x \in DOMAIN st.sels
IsDist(st, x, k) == x \in DOMAIN st.dists /\ st.dists[x].kind = k
Derived(st, x) == st.samp[x].kind = "derived"

(* the samplers a sampler depends on, at every depth *)
RECURSIVE Under(_, _)
Under(st, s) ==
  LET c == Range(st.samp[s].secs)
  IN  c \cup UNION {Under(st, x) : x \in c}

Roots(st, y) ==
  Range(st.syn[y].aux) \cup (IF st.syn[y].der = "none" THEN {} ELSE {st.syn[y].der})

Attached(st, y) == Roots(st, y) \cup UNION {Under(st, r) : r \in Roots(st, y)}

HasLum(st, y) == st.syn[y].lum # "none"
HasDer(st, y) == st.syn[y].der # "none"

(* a survey can be drawn *)
Drawable(st, y) ==
  /\ HasLum(st, y) \/ HasDer(st, y)
  /\ \A a \in Range(st.syn[y].aux) : st.samp[a].parents = <<>>

NameOf(st, s) == st.samp[s].name
NamesOf(st, ids) == {NameOf(st, s) : s \in ids}
ByName(st, y, n) == CHOOSE s \in Attached(st, y) : NameOf(st, s) = n

NoSel == [typ |-> "unity", on |-> "obs", lo |-> 0, hi |-> 0, canon |-> "unity"]
SelOf(st, x) == IF x \in DOMAIN st.sels THEN st.sels[x] ELSE NoSel
IsUnity(st, x) == SelOf(st, x).typ = "unity"

(* the values of the parameters in force: those given, else the defaults *)
Eff(d) == Merge(d.defs, d.pars)

(* what determines the values of a sampler *)
RECURSIVE Tree(_, _)
Tree(st, s) ==
  LET x == st.samp[s]
  IN  [ name |-> x.name, cls |-> x.cls, obs |-> x.obs, canon |-> x.canon,
        pars |-> Eff(x),
        sel  |-> SelOf(st, x.sel),
        secs |-> [i \in 1..Len(x.secs) |-> Tree(st, x.secs[i])] ]

DistKey(d) == [name |-> d.name, cls |-> d.cls, canon |-> d.canon, pars |-> Eff(d)]

(* what determines a survey: the current configuration and nothing else *)
Key(st, y, opts) ==
  LET s == st.syn[y]
  IN  [ seed |-> s.seed,
        spat |-> DistKey(st.dists[s.spat]),
        lum  |-> IF HasDer(st, y) \/ ~HasLum(st, y) THEN {} ELSE {DistKey(st.dists[s.lum])},
        der  |-> IF HasDer(st, y) THEN {Tree(st, s.der)} ELSE {},
        aux  |-> [i \in 1..Len(s.aux) |-> Tree(st, s.aux[i])],
        flux |-> SelOf(st, s.flux), dist |-> SelOf(st, s.dist), sp |-> SelOf(st, s.sp),
        opts |-> opts ]

Opts(e) == [n |-> e.n, norm |-> e.norm, hassig |-> e.hassig, sigma |-> e.sigma,
            log10 |-> e.log10]

(* the graph of a configuration *)
GraphNodes(st, y) ==
  LET s == st.syn[y]
      A == Attached(st, y)
      N(x) == {NameOf(st, x)} \cup
              (IF st.samp[x].obs THEN {NameOf(st, x) \o "_obs"} ELSE {})
  IN  {st.dists[s.spat].name, "obs_flux"}
      \cup (IF HasDer(st, y) THEN {} ELSE {st.dists[s.lum].name})
      \cup UNION {N(x) : x \in A}

GraphEdges(st, y) ==
  LET s == st.syn[y]
      A == Attached(st, y)
      sn == st.dists[s.spat].name
  IN  {<<sn, "obs_flux">>,
       <<IF HasDer(st, y) THEN NameOf(st, s.der) ELSE st.dists[s.lum].name, "obs_flux">>}
      \cup {<<NameOf(st, x), NameOf(st, x) \o "_obs">> : x \in {z \in A : st.samp[z].obs}}
      \cup {<<sn, NameOf(st, x)>> : x \in {z \in A : st.samp[z].ud}}
      \cup UNION { {<<NameOf(st, c), NameOf(st, x)>> : c \in Range(st.samp[x].secs)} : x \in A }

-----------------------------------------------------------------------------
(* which calls are accepted *)

Accepts(st, e) ==
  CASE e.op \in {"new_dist", "new_sampler", "new_sel", "set_bound", "set_par",
                 "reset_sampler", "export", "clean", "space"} -> TRUE
    [] e.op = "new_synth" ->
         /\ IsDist(st, e.spat, "spat")
         /\ e.lum = "none" \/ IsDist(st, e.lum, "lum")
    [] e.op = "add" ->
         /\ IsSamp(st, e.what)
         /\ \/ Derived(st, e.what)
            \/ /\ st.samp[e.what].parents = <<>>
               /\ NameOf(st, e.what) \notin NamesOf(st, Range(st.syn[e.syn].aux))
    [] e.op = "sec" -> IsSamp(st, e.child)
    [] e.op = "setsel" -> IsSel(st, e.sel)
    [] e.op = "setrole" -> IsSel(st, e.sel)
    [] OTHER -> TRUE

Registers == {"new_synth", "add", "sec", "setsel", "setrole"}

-----------------------------------------------------------------------------
(* transitions *)

StartDraw(st, e) ==
  [ on |-> TRUE, syn |-> e.syn, opts |-> Opts(e),
    ndist |-> 0, nsky |-> 0, nlum |-> 0, nder |-> 0,
    size |-> -1, dist |-> "", theta |-> "", phi |-> "", lum |-> "",
    t |-> <<>>, o |-> <<>> ]  \* id -> token of the true (observed) values drawn

AddSec(st, p, c) ==
  LET old == st.samp[p].secs
      same == {i \in DOMAIN old : NameOf(st, old[i]) = NameOf(st, c)}
      new == IF same = {} THEN Append(old, c)
             ELSE [i \in DOMAIN old |-> IF i \in same THEN c ELSE old[i]]
      s1 == [st EXCEPT !.samp[p].secs = new]
  IN  [s1 EXCEPT !.samp[c].parents = Append(@, NameOf(st, p))]

ApplyOk(st, e) ==
  CASE e.op = "new_dist" ->
         [st EXCEPT !.dists = Upd(@, e.id,
            [kind |-> e.kind, cls |-> e.cls, name |-> e.name, canon |-> e.canon,
             pars |-> e.pars, defs |-> e.defs])]
    [] e.op = "new_sampler" ->
         [st EXCEPT !.samp = Upd(@, e.id,
            [kind |-> e.kind, cls |-> e.cls, name |-> e.name, canon |-> e.canon,
             pars |-> e.pars, defs |-> e.defs, obs |-> e.obs, ud |-> e.ud,
             ul |-> e.ul, hp |-> e.hp, secs |-> <<>>, parents |-> <<>>,
             sel |-> "unity"])]
    [] e.op = "new_sel" ->
         [st EXCEPT !.sels = Upd(@, e.id,
            [typ |-> e.typ, on |-> e.on, lo |-> e.lo, hi |-> e.hi, canon |-> e.canon])]
    [] e.op = "set_bound" ->
         [st EXCEPT !.sels[e.id].lo = e.lo, !.sels[e.id].hi = e.hi]
    [] e.op = "set_par" ->
         IF e.id \in DOMAIN st.dists
         THEN [st EXCEPT !.dists[e.id].pars = Upd(@, e.p, e.v)]
         ELSE [st EXCEPT !.samp[e.id].pars = Upd(@, e.p, e.v)]
    [] e.op = "new_synth" ->
         [st EXCEPT !.syn = Upd(@, e.id,
            [spat |-> e.spat, lum |-> e.lum, seed |-> e.seed, aux |-> <<>>,
             der |-> "none", flux |-> "unity", dist |-> "unity", sp |-> "unity",
             spaces |-> {}])]
    [] e.op = "add" ->
         IF Derived(st, e.what)
         THEN [st EXCEPT !.syn[e.syn].der = e.what]
         ELSE [st EXCEPT !.syn[e.syn].aux = Append(@, e.what)]
    [] e.op = "sec" -> AddSec(st, e.parent, e.child)
    [] e.op = "setsel" -> [st EXCEPT !.samp[e.s].sel = e.sel]
    [] e.op = "setrole" ->
         CASE e.role = "flux" -> [st EXCEPT !.syn[e.syn].flux = e.sel]
           [] e.role = "dist" -> [st EXCEPT !.syn[e.syn].dist = e.sel]
           [] OTHER -> [st EXCEPT !.syn[e.syn].sp = e.sel]
    [] e.op = "space" -> [st EXCEPT !.syn[e.syn].spaces = @ \cup {e.name}]
    [] e.op = "clean" ->
         [st EXCEPT !.syn[e.syn] =
            [@ EXCEPT !.aux = <<>>, !.der = "none", !.flux = "unity",
                      !.dist = "unity", !.sp = "unity"]]
    [] OTHER -> st

Bump(st, e) ==
  CASE e.op = "dist" ->
         [st EXCEPT !.cur.ndist = @ + 1, !.cur.dist = e.dist, !.cur.size = e.size]
    [] e.op = "sky" ->
         [st EXCEPT !.cur.nsky = @ + 1, !.cur.theta = e.theta, !.cur.phi = e.phi]
    [] e.op = "lumdraw" -> [st EXCEPT !.cur.nlum = @ + 1, !.cur.lum = e.lum]
    [] e.op = "derive" -> [st EXCEPT !.cur.nder = @ + 1, !.cur.lum = e.lum]
    [] e.op = "call" /\ e.ph = "true" ->
         [st EXCEPT !.cur.t = Upd(@, e.s, e.vals)]
    [] e.op = "call" /\ e.ph = "obs" ->
         [st EXCEPT !.cur.o = Upd(@, e.s, e.vals)]
    [] OTHER -> st

Steps == {"dist", "sky", "lumdraw", "derive", "call"}

HeldAfter(st, e) == IF e.held = <<"off">> THEN <<>> ELSE e.held

Apply(st, e) ==
  CASE e.op = "reset" -> InitSt
    [] e.op = "draw_begin" -> [st EXCEPT !.cur = StartDraw(st, e)]
    [] e.op \in Steps -> IF st.cur.on THEN Bump(st, e) ELSE st
    [] e.op = "draw_end" ->
         LET k == Key(st, e.syn, st.cur.opts)
             s1 == IF e.ok /\ e.seen /\ Drawable(st, e.syn)
                   THEN [st EXCEPT !.memo = Append(@, [k |-> k, d |-> e.digest])]
                   ELSE st
         IN  [s1 EXCEPT !.cur = NoDraw, !.held = HeldAfter(st, e)]
    [] OTHER ->
         IF e.ok /\ Accepts(st, e)
         THEN [ApplyOk(st, e) EXCEPT !.held = HeldAfter(st, e)]
         ELSE [st EXCEPT !.held = HeldAfter(st, e)]

-----------------------------------------------------------------------------
(* judging *)

If(c, name) == IF c THEN {} ELSE {name}

(* populations drawn before are untouched *)
CheckHeld(st, e) ==
  IF e.held = <<"off">> THEN {}
  ELSE If(/\ Len(e.held) >= Len(st.held)
          /\ \A i \in 1..Len(st.held) : e.held[i] = st.held[i],
          "C05:population changed")

CheckCall(st, e) ==
  LET s == e.s
      c == st.cur
      A == Attached(st, c.syn)
  IN
  IF s \notin A THEN {"C03,C04:a sampler that is not attached was drawn"}
  ELSE
  IF e.ph = "true"
  THEN
    If(s \notin DOMAIN c.t, "C03:true values drawn more than once")
    \cup If({d.s : d \in Range(e.deps)} = Range(st.samp[s].secs),
            "C03,C04:sampler sees other dependencies than configured")
    \cup If(\A d \in Range(e.deps) :
              /\ d.s \in DOMAIN c.t
              /\ d.t = c.t[d.s]
              /\ IF d.s \in A /\ st.samp[d.s].obs
                 THEN d.s \in DOMAIN c.o /\ d.o = c.o[d.s]
                 ELSE d.o = d.t,
            "C03:drawn before what it depends on is complete")
    \cup If(c.ndist = 1 /\ e.dist = c.dist, "C03:sees distances of another survey")
    \cup If(c.nsky = 1 /\ e.theta = c.theta /\ e.phi = c.phi,
            "C03:sees sky positions of another survey")
    \cup If(\/ ~(s \in Range(st.syn[c.syn].aux) \/ st.samp[s].ul)
            \/ (c.nlum + c.nder >= 1 /\ e.lum = c.lum),
            "C03:sees luminosities of another survey")
    \cup If(e.size = c.size, "C03,C17:drawn with another size")
  ELSE
    If(s \in DOMAIN c.t /\ c.t[s] = e.true,
       "C03:observed values drawn before the true values")
    \cup If(s \notin DOMAIN c.o, "C03:observed values drawn more than once")
    \cup If(st.samp[s].obs, "C03,C06:observed values drawn for an unobserved sampler")

CheckDerive(st, e) ==
  LET c == st.cur
  IN
  If(c.nder = 0, "C03:luminosity derived more than once")
  \cup If(HasDer(st, c.syn) /\ st.syn[c.syn].der = e.s,
          "C03,C04,C06:luminosity derived by a sampler that is not attached")
  \cup If(e.s \in DOMAIN c.t /\ e.true = c.t[e.s],
          "C03:luminosity derived before its sampler was drawn")
  \cup If(\A d \in Range(e.deps) :
            /\ d.s \in DOMAIN c.t /\ d.t = c.t[d.s]
            /\ IF st.samp[d.s].obs
               THEN d.s \in DOMAIN c.o /\ d.o = c.o[d.s]
               ELSE d.o = d.t,
          "C03:luminosity derived before what it depends on")

CheckStep(st, e) ==
  IF ~st.cur.on THEN {"C03,C05:drawn outside of a survey"}
  \* it has to be refused, but when is not said
  ELSE IF ~Drawable(st, st.cur.syn) THEN {}
  ELSE
  CASE e.op = "dist" -> If(st.cur.ndist = 0, "C03,C04:distances drawn more than once")
    [] e.op = "sky" ->
         If(st.cur.nsky = 0, "C03,C04,C24:sky positions drawn more than once")
         \cup If(e.size = st.cur.size, "C24,C02:another number of sky positions")
    [] e.op = "lumdraw" ->
         If(st.cur.nlum = 0, "C03,C04,C06:luminosities drawn more than once")
         \cup If(e.size = st.cur.size, "C02,C17:another number of luminosities")
    [] e.op = "derive" -> CheckDerive(st, e)
    [] e.op = "call" -> CheckCall(st, e)
    [] OTHER -> {}

(* ---- the population --------------------------------------------------- *)

RuleAccepts(x, v) ==
  CASE x.typ \in {"unity", "all"} -> TRUE
    [] x.typ = "nothing" -> FALSE
    [] x.typ \in {"lower", "gal"} -> v >= x.lo
    [] x.typ = "upper" -> v <= x.lo
    [] x.typ \in {"box", "range"} -> v >= x.lo /\ v <= x.hi
    [] OTHER -> TRUE

(* the values a selection acts on *)
ActsOn(st, e, x, aux) ==
  CASE x.typ = "gal" -> e.absb
    [] x.typ = "range" -> e.val.dist
    [] x.on = "obs" -> aux
    [] x.on = "dist" -> e.val.dist
    [] x.on = "lum" -> e.val.lum
    [] x.on = "flux" -> e.val.fobs
    [] OTHER -> aux

Deterministic(x) == x.typ \in {"lower", "upper", "box", "range", "gal"}

(* does the selection x accept object i; rep is what it reported *)
Accepted(st, e, x, aux, rep, i) ==
  IF Deterministic(x) THEN RuleAccepts(x, ActsOn(st, e, x, aux)[i])
  ELSE IF x.typ = "random" THEN rep[i]
  ELSE RuleAccepts(x, 0)

ObjectSelected(st, e, i) ==
  LET y == st.syn[e.syn]
  IN  /\ \A s \in {a \in Attached(st, e.syn) : ~IsUnity(st, st.samp[a].sel)} :
            Accepted(st, e, SelOf(st, st.samp[s].sel), e.aux[NameOf(st, s)].obs,
                     e.rep[s], i)
      /\ IsUnity(st, y.flux)
         \/ Accepted(st, e, SelOf(st, y.flux), <<>>, e.rep.flux, i)
      /\ IsUnity(st, y.sp)
         \/ Accepted(st, e, SelOf(st, y.sp), <<>>, e.rep.sp, i)

RepNames(st, y) ==
  {s \in Attached(st, y) : ~IsUnity(st, st.samp[s].sel)}
  \cup (IF IsUnity(st, st.syn[y].flux) THEN {} ELSE {"flux"})
  \cup (IF IsUnity(st, st.syn[y].sp) THEN {} ELSE {"sp"})

CheckSelection(st, e) ==
  IF ~e.full THEN {}
  ELSE
  LET good == /\ Len(e.sel) = e.n
              /\ \A k \in RepNames(st, e.syn) : k \in DOMAIN e.rep /\ Len(e.rep[k]) = e.n
              /\ \A s \in Attached(st, e.syn) : Len(e.aux[NameOf(st, s)].obs) = e.n
              /\ \A k \in {"lum", "dist", "fobs"} : Len(e.val[k]) = e.n
  IN  IF ~good THEN {"C01,C02:selections do not have one entry per object"}
      ELSE If(\A i \in 1..e.n : e.sel[i] <=> ObjectSelected(st, e, i),
              "C01:selection is not the conjunction of the attached selections")

ArrayNames == {"lum", "dist", "flat", "fobs", "theta", "phi", "prob", "sel"}

SelectedIdx(e) == SelectSeq([i \in 1..e.n |-> i], LAMBDA i : e.sel[i])
HiddenIdx(e) == SelectSeq([i \in 1..e.n |-> i], LAMBDA i : ~e.sel[i])
Pick(v, idx) == [j \in 1..Len(idx) |-> v[idx[j]]]

StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i+1]

ViewOk(v, lat, obs, e) ==
  /\ v.so = Pick(obs, SelectedIdx(e))
  /\ v.sl = Pick(lat, SelectedIdx(e))
  /\ v.ho = Pick(obs, HiddenIdx(e))
  /\ v.hl = Pick(lat, HiddenIdx(e))
  /\ v.marks

(* the names of earlier versions give the same *)
OldOk(v, e) ==
  /\ v.llat = e.val.lum
  /\ v.flat = e.val.flat
  /\ v.fobs = e.val.fobs
  /\ v.sfo = Pick(e.val.fobs, SelectedIdx(e))
  /\ v.sfl = Pick(e.val.flat, SelectedIdx(e))
  /\ v.sd = Pick(e.val.dist, SelectedIdx(e))
  /\ v.hfo = Pick(e.val.fobs, HiddenIdx(e))
  /\ v.hfl = Pick(e.val.flat, HiddenIdx(e))
  /\ v.hd = Pick(e.val.dist, HiddenIdx(e))

CheckKnown(st, e) ==
  LET y == st.syn[e.syn]
      x == SelOf(st, y.dist)
      d == Pick(e.val.dist, SelectedIdx(e))
      K == Range(e.kidx)
      U == Range(e.uidx)
      knows(j) == CASE Deterministic(x) -> RuleAccepts(x, d[j])
                    [] x.typ = "random" -> e.rep.dist[j]
                    [] OTHER -> RuleAccepts(x, 0)
  IN
  If(/\ StrictlyIncreasing(e.kidx) /\ StrictlyIncreasing(e.uidx)
     /\ K \cap U = {} /\ K \cup U = 0..(e.ndet - 1),
     "C02,C12:known and unknown distances do not split the detected objects")
  \cup If(/\ Len(e.known) = Len(e.kidx)
          /\ \A j \in 1..Len(e.kidx) :
               /\ (e.kidx[j] + 1) \in DOMAIN d
               /\ e.known[j] = d[e.kidx[j] + 1],
          "C02,C12:a known distance is not the distance of its object")
  \cup If(/\ (x.typ = "random" => Len(e.rep.dist) = e.ndet)
          /\ \A j \in 1..Len(d) : ((j - 1) \in K) <=> knows(j),
          "C02:distances are not known as the distance selection says")

CheckAligned(st, e) ==
  LET names == NamesOf(st, Attached(st, e.syn))
  IN
  If(/\ \A k \in ArrayNames : e.len[k] = e.n
     /\ \A k \in DOMAIN e.aux : e.aux[k].lt = e.n /\ e.aux[k].lo = e.n,
     "C02:an array does not have one entry per object")
  \cup If(/\ e.ndet = e.selcount /\ e.nnon = e.n - e.ndet
          /\ (e.has <=> e.ndet > 0),
          "C02:numbers of objects and detections do not agree with the selection")
  \cup If(e.nk[1] = e.nk[2] /\ e.nk[2] + e.nk[3] = e.ndet,
          "C02:numbers of known and unknown distances are wrong")
  \cup If(Range(e.denied) = DOMAIN e.aux,
          "C02:an auxiliary quantity could be overwritten")
  \cup (IF e.full /\ Len(e.sel) = e.n /\ \A k \in ArrayNames : e.len[k] = e.n
        THEN CheckKnown(st, e)
             \cup (IF DOMAIN e.views = {} THEN {}
                   ELSE If(/\ ViewOk(e.views.lum, e.val.lum, e.val.lum, e)
                           /\ ViewOk(e.views.dist, e.val.dist, e.val.dist, e)
                           /\ ViewOk(e.views.flux, e.val.flat, e.val.fobs, e)
                           /\ ViewOk(e.views.theta, e.val.theta, e.val.theta, e)
                           /\ ViewOk(e.views.phi, e.val.phi, e.val.phi, e)
                           /\ ViewOk(e.views.prob, e.val.prob, e.val.prob, e)
                           /\ \A k \in DOMAIN e.views.aux :
                                ViewOk(e.views.aux[k], e.aux[k].tru, e.aux[k].obs, e),
                           "C02,C13:views do not split the objects")
                        \cup If(OldOk(e.views.old, e), "C02:a deprecated name gives something else"))
        ELSE {})

CheckDrawn(st, e) ==
  LET c == st.cur
      A == Attached(st, e.syn)
      Obs == {a \in A : st.samp[a].obs}
      names == NamesOf(st, A)
  IN
  If(A \subseteq DOMAIN c.t, "C03,C04:an attached sampler was not drawn")
  \cup If(Obs \subseteq DOMAIN c.o, "C03,C04:observed values of a sampler were not drawn")
  \cup If(DOMAIN e.aux = names,
          "C03,C04,C02:population does not have the attached quantities")
  \cup If(/\ names \subseteq DOMAIN e.aux
          /\ \A a \in A \cap DOMAIN c.t :
               /\ e.aux[NameOf(st, a)].t = c.t[a]
               /\ IF a \in DOMAIN c.o THEN e.aux[NameOf(st, a)].o = c.o[a]
                  ELSE e.aux[NameOf(st, a)].o = e.aux[NameOf(st, a)].t,
          "C03,C02,C06:population does not report the values that were drawn")
  \cup If(c.ndist = 1 /\ e.dig.dist = c.dist /\ e.dig.distlat = c.dist,
          "C03,C02,C04:distances are not the ones drawn")
  \cup If(c.nsky = 1 /\ e.dig.theta = c.theta /\ e.dig.phi = c.phi,
          "C24,C02,C03:sky positions are not the ones drawn")
  \cup If(IF HasDer(st, e.syn)
          THEN c.nder = 1 /\ e.dig.lum = c.lum
          ELSE c.nlum = 1 /\ c.nder = 0 /\ e.dig.lum = c.lum,
          "C03,C06:luminosities are not the ones of the luminosity source")
  \cup If(e.dig.lumlat = e.dig.lum, "C06,C02:latent luminosities differ")

Noisy(st, e) == st.cur.opts.hassig /\ ~IsUnity(st, st.syn[e.syn].flux)

CheckFlux(st, e) ==
  If(e.dig.flat = e.dig.trans,
     "C06:latent flux is not the transform of luminosity and distance")
  \cup (IF Noisy(st, e)
        THEN If(e.fobspos, "C06:observed flux is not positive")
             \cup If(e.sigma = st.cur.opts.sigma, "C06:recorded flux error is not the one used")
             \cup If(e.n = 0 \/ e.sigma = e.zero \/ e.dig.fobs # e.dig.flat,
                     "C06:fluxes were not scattered")
        ELSE If(e.dig.fobs = e.dig.flat, "C06:observed flux is not the latent flux")
             \cup If(e.sigma = e.nosigma, "C06:recorded flux error is not the dummy"))
  \cup If(\A a \in {x \in Attached(st, e.syn) : ~st.samp[x].obs} :
            NameOf(st, a) \in DOMAIN e.aux =>
              e.aux[NameOf(st, a)].o = e.aux[NameOf(st, a)].t,
          "C06:observed values of an unobserved quantity differ from the true ones")

(* recorded parameters: all that were given, with defaults at most added *)
Records(rec, d) ==
  /\ DOMAIN d.pars \subseteq DOMAIN rec
  /\ \A p \in DOMAIN rec : p \in DOMAIN Eff(d) /\ rec[p] = Eff(d)[p]

CheckProvenance(st, e) ==
  LET y == st.syn[e.syn]
      A == Attached(st, e.syn)
      spat == st.dists[y.spat]
      exp == {spat.name} \cup NamesOf(st, A)
             \cup (IF HasDer(st, e.syn) THEN {} ELSE {st.dists[y.lum].name})
  IN
  If(DOMAIN e.truth = exp, "C07:truth does not have the components of the survey")
  \cup If(/\ spat.name \in DOMAIN e.truth => Records(e.truth[spat.name], spat)
          /\ \A a \in A : NameOf(st, a) \in DOMAIN e.truth =>
               Records(e.truth[NameOf(st, a)], st.samp[a])
          /\ (~HasDer(st, e.syn) /\ st.dists[y.lum].name \in DOMAIN e.truth) =>
               Records(e.truth[st.dists[y.lum].name], st.dists[y.lum]),
          "C07:truth does not have the current parameters")
  \cup If(Records(e.spp, spat), "C07:spatial parameters are not the current ones")
  \cup If(HasLum(st, e.syn) => Records(e.lf, st.dists[y.lum]),
          "C07:luminosity parameters are not the current ones")
  \cup If(Range(e.graph.nodes) = GraphNodes(st, e.syn), "C07:graph has other nodes")
  \cup If(Range(e.graph.edges) = GraphEdges(st, e.syn), "C07:graph has other edges")
  \cup If(e.directed, "C07:graph is not directed")

RECURSIVE SumOver(_, _, _, _)
SumOver(st, e, S, i) ==
  IF S = {} THEN 0
  ELSE LET s == CHOOSE x \in S : TRUE
       IN  e.lg.aux[s][i] + SumOver(st, e, S \ {s}, i)

(* exponents to base two: the product becomes a sum *)
CheckProbability(st, e) ==
  IF ~e.lg.on THEN {}
  ELSE LET S == {s \in Attached(st, e.syn) : ~IsUnity(st, st.samp[s].sel)}
       IN  If(/\ Len(e.lg.pop) = e.n
              /\ \A i \in 1..e.n :
                   e.lg.pop[i] = e.lg.spat[i] + e.lg.lum[i] + SumOver(st, e, S, i),
              "C22:probability is not the product of its contributions")

CheckMemo(st, e) ==
  LET k == Key(st, e.syn, st.cur.opts)
  IN  If(\A i \in 1..Len(st.memo) : st.memo[i].k = k => st.memo[i].d = e.digest,
         "C04,C20:the same configuration gave another survey")

CheckSky(st, e) ==
  If(e.radiff = 0 /\ e.decdiff = 0,
     "C24:right ascension and declination do not agree with the angles")
  \cup If(e.angles, "C24:angles are out of range")

(* nothing is held before a draw; one more is held after it *)
CheckNewHeld(st, e) ==
  IF e.held = <<"off">> THEN {}
  ELSE If(Len(e.held) = Len(st.held) + (IF e.ok THEN 1 ELSE 0),
          "C05:populations got lost")

CheckDrawEnd(st, e) ==
  IF ~Drawable(st, e.syn)
  THEN If(~e.ok, "C08:a survey was drawn that must be refused")
  ELSE IF ~e.ok THEN {"*:drawing failed with " \o e.err}
  ELSE IF ~e.seen THEN {"*:the population can not be used, " \o e.err}
  ELSE
    If(st.cur.opts.n >= 0 => e.n = st.cur.opts.n, "C17,C02:number of objects is not the one asked for")
    \cup If(e.n = st.cur.size, "C17,C02:number of objects is not the number of distances")
    \cup CheckDrawn(st, e)
    \cup CheckAligned(st, e)
    \cup (IF NamesOf(st, Attached(st, e.syn)) \subseteq DOMAIN e.aux
          THEN CheckSelection(st, e) ELSE {"C01:quantities are missing"})
    \cup CheckFlux(st, e)
    \cup CheckProvenance(st, e)
    \cup CheckProbability(st, e)
    \cup CheckSky(st, e)
    \cup CheckMemo(st, e)
    \cup CheckNewHeld(st, e)

CheckCallApi(st, e) ==
  If(e.ok <=> Accepts(st, e),
     IF e.ok THEN "C08:an invalid registration was accepted"
     ELSE IF e.op \in Registers THEN "C08,*:a valid registration was refused with " \o e.err
     ELSE "*:" \o e.op \o " failed with " \o e.err)
  \cup (IF e.op \in Registers /\ ~Accepts(st, e)
        THEN If(e.same, "C08:a refused registration changed something") ELSE {})
  \cup (IF Has(e, "left")
        THEN If(e.left = <<>>, "C04:values are left after a reset") ELSE {})
  \cup (IF e.op = "clean" /\ e.ok
        THEN If(e.remain = <<>>, "C04:something is still attached after cleaning") ELSE {})
  \cup (IF e.op = "export" /\ e.ok
        THEN If(e.pure, "C04,C05,C09:exporting the configuration changed it") ELSE {})

Check(st, e) ==
  CASE e.op = "reset" -> {}
    [] e.op = "draw_begin" -> {}
    [] e.op \in Steps -> CheckStep(st, e)
    [] e.op = "draw_end" -> CheckDrawEnd(st, e) \cup CheckHeld(st, e)
    [] OTHER -> CheckCallApi(st, e) \cup CheckHeld(st, e)
=============================================================================
