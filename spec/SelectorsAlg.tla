---------------------------- MODULE SelectorsAlg ----------------------------
(***************************************************************************)
(* How a selector keeps its result: a flag and an array, made by select    *)
(* unless the flag is set, cleared by reset.  Every history of Depth calls  *)
(* on a lower bound, a random selection and their combination is judged by *)
(* Selectors!Check; in simulation mode the histories are printed.          *)
(***************************************************************************)
EXTENDS Selectors, TLC, Json

CONSTANTS Bug, Depth, Emit, N, V

VARIABLES st, al, bad, hist
vars == <<st, al, bad, hist>>

Vectors == IF Emit THEN {[i \in 1..N |-> (i * (1 + Len(hist)) + j * i * i) % (V + 1)] : j \in 0..1}
           ELSE [1..N -> 0..V]
Flags == [1..N -> BOOLEAN]
Ids == {"a", "b", "c"}

Setup == [InitSt EXCEPT !.zero = 98, !.one = 99,
   !.s = [ a |-> [New([cls |-> "LowerBound", use |-> "flux"]) EXCEPT
                    !.pars = [boundary |-> 1], !.vals = [flux |-> [i \in 1..N |-> i % (V + 1)]]],
           b |-> [New([cls |-> "BernoulliSelection", use |-> "none"]) EXCEPT
                    !.pars = [probability |-> 50]] ]]

Al0 == [ bound |-> 1, vals |-> [i \in 1..N |-> i % (V + 1)],
         flag |-> [i \in Ids |-> FALSE], sel |-> [i \in Ids |-> <<>>], made |-> {} ]

Decide(a) == [i \in 1..N |-> IF Bug = "strict" THEN a.vals[i] > a.bound ELSE a.vals[i] >= a.bound]

Select(a, id, rnd) ==
  IF a.flag[id] /\ Bug # "resample" THEN a
  ELSE IF Bug = "stale" /\ a.sel[id] # <<>> THEN [a EXCEPT !.flag[id] = TRUE]
  ELSE [a EXCEPT !.flag[id] = TRUE,
                 !.sel[id] = IF id = "a" THEN Decide(a) ELSE IF id = "b" THEN rnd ELSE @]

Reset(a, id) ==
  IF Bug \in {"flagonly", "stale"} THEN [a EXCEPT !.flag[id] = FALSE]
  ELSE IF Bug = "noreset" THEN a
  ELSE [a EXCEPT !.flag[id] = FALSE, !.sel[id] = <<>>]

Add(a) ==
  IF a.sel["a"] = <<>> \/ a.sel["b"] = <<>> THEN a
  ELSE LET c == [i \in 1..N |-> IF Bug = "either" THEN a.sel["a"][i] \/ a.sel["b"][i]
                                ELSE a.sel["a"][i] /\ a.sel["b"][i]]
       IN  [a EXCEPT !.sel["c"] = c, !.flag["c"] = FALSE,
                     !.sel["a"] = IF Bug = "inplace" THEN c ELSE @]

Seq2(f) == [i \in 1..N |-> f[i]]
Read(a, id) ==
  IF a.sel[id] = <<>>
  THEN [has |-> FALSE, sel |-> <<>>, n |-> -1, nsel |-> -1, nnon |-> -1, idx |-> <<>>, nonidx |-> <<>>]
  ELSE LET s == Seq2(a.sel[id])
       IN  [ has |-> TRUE, sel |-> s, n |-> N, nsel |-> Count(s, TRUE),
             nnon |-> IF Bug = "counts" THEN N ELSE Count(s, FALSE),
             idx |-> IndexFrom(s, TRUE, 1), nonidx |-> IndexFrom(s, FALSE, 1) ]
Reads(a) == [id \in Ids |-> Read(a, id)]

Do(e, a) ==
  LET ev == [x \in DOMAIN e \cup {"ok", "reads"} |->
               CASE x = "ok" -> (e.op = "add" => (al.sel["a"] # <<>> /\ al.sel["b"] # <<>>))
                 [] x = "reads" -> Reads(a) [] OTHER -> e[x]]
  IN  /\ al' = a /\ bad' = bad \cup Check(st, ev) /\ st' = Apply(st, ev)
      /\ hist' = Append(hist, e)

Ready(id) == id \in {"a", "b"} \/ (id = "c" /\ "c" \in DOMAIN st.s /\ st.s["c"].made)

Call ==
  /\ Len(hist) < Depth
  /\ \/ \E v \in 0..V : Do([op |-> "set", id |-> "a", par |-> "boundary", v |-> v], [al EXCEPT !.bound = v])
     \/ \E w \in Vectors : Do([op |-> "give", id |-> "a", q |-> "flux", vals |-> w],
                              [al EXCEPT !.vals = w])
     \/ \E id \in Ids : Ready(id) /\ \E r \in (IF id = "b" /\ ~Emit THEN Flags ELSE {[i \in 1..N |-> TRUE]}) :
          Do([op |-> "select", id |-> id, n |-> N], Select(al, id, r))
     \/ \E id \in Ids \cap DOMAIN st.s : Do([op |-> "unmake", id |-> id], Reset(al, id))
     \/ \E xy \in {<<"a", "b">>, <<"b", "a">>} :
          Do([op |-> "add", id |-> "c", a |-> xy[1], b |-> xy[2]], Add(al))

Finish == /\ Emit /\ Len(hist) = Depth
          /\ PrintT("SCRIPT " \o ToJson(hist))
          /\ UNCHANGED <<st, al, bad>> /\ hist' = Append(hist, [op |-> "end"])

Init == st = Setup /\ al = Al0 /\ bad = {} /\ hist = <<>>
Next == Call \/ Finish
View == <<st, al, bad, Len(hist)>>

NoViolation == bad = {}
Agree == \A id \in DOMAIN st.s :
  IF st.s[id].made THEN al.sel[id] # <<>> /\ Seq2(al.sel[id]) = st.s[id].sel
  ELSE al.sel[id] = <<>>
=============================================================================
