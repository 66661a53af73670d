------------------------------- MODULE SimVar -------------------------------
(***************************************************************************)
(* Simulated variables: observed values, latent values and a selection for *)
(* the same objects.  Universal functions act on observed and latent       *)
(* values alike and keep the selection, indexing picks the same objects of *)
(* all three, and only the target of an in-place operation changes.        *)
(*                                                                         *)
(* st.v: id -> [k: "sv" or "arr", o: values, l: latent values, s: selection]*)
(* Every event carries all variables after the call (all).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(c, name) == IF c THEN {} ELSE {name}
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InitSt == [v |-> <<>>]

B(b) == IF b THEN 1 ELSE 0
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

F2(f, a, b) ==
  CASE f = "add" -> a + b
    [] f = "subtract" -> a - b
    [] f = "multiply" -> a * b
    [] f = "maximum" -> Max(a, b)
    [] f = "minimum" -> Min(a, b)
    [] f = "floor_divide" -> a \div b
    [] f = "remainder" -> a % b
    [] f = "less" -> B(a < b)
    [] f = "less_equal" -> B(a <= b)
    [] f = "greater" -> B(a > b)
    [] f = "greater_equal" -> B(a >= b)
    [] f = "equal" -> B(a = b)
    [] f = "not_equal" -> B(a # b)
    [] f = "logical_and" -> B(a # 0 /\ b # 0)
    [] f = "logical_or" -> B(a # 0 \/ b # 0)

F1(f, a) ==
  CASE f = "negative" -> 0 - a
    [] f = "absolute" -> IF a < 0 THEN 0 - a ELSE a
    [] f = "square" -> a * a
    [] f = "sign" -> IF a < 0 THEN 0 - 1 ELSE IF a = 0 THEN 0 ELSE 1
    [] f = "logical_not" -> B(a = 0)

Map1(f, x) == [i \in 1..Len(x) |-> F1(f, x[i])]
Map2(f, x, y) == [i \in 1..Len(x) |-> F2(f, x[i], y[i])]

\* operands: [t |-> "id", id] or [t |-> "c", c] for a number
Var(st, p) == st.v[p.id]
IsSv(st, p) == p.t = "id" /\ Var(st, p).k = "sv"
Size(st, p, q) == IF p.t = "id" THEN Len(Var(st, p).o) ELSE Len(Var(st, q).o)
ObsOf(st, p, n) == IF p.t = "c" THEN [i \in 1..n |-> p.c] ELSE Var(st, p).o
LatOf(st, p, n) == IF IsSv(st, p) THEN Var(st, p).l ELSE ObsOf(st, p, n)

\* the selection belongs to the first operand that has one
SelOf(st, p, q) == IF IsSv(st, p) THEN Var(st, p).s ELSE Var(st, q).s

Arr(o) == [k |-> "arr", o |-> o, l |-> o, s |-> <<>>]
Sv(o, l, s) == [k |-> "sv", o |-> o, l |-> l, s |-> s]

Bin(st, f, p, q) ==
  LET n == Size(st, p, q)
      o == Map2(f, ObsOf(st, p, n), ObsOf(st, q, n))
  IN  IF IsSv(st, p) \/ IsSv(st, q)
      THEN Sv(o, Map2(f, LatOf(st, p, n), LatOf(st, q, n)), SelOf(st, p, q))
      ELSE Arr(o)

Un(st, f, p) ==
  LET x == Var(st, p)
  IN  IF x.k = "sv" THEN Sv(Map1(f, x.o), Map1(f, x.l), x.s) ELSE Arr(Map1(f, x.o))

Where(mask, new, old) == [i \in 1..Len(new) |-> IF mask[i] THEN new[i] ELSE old[i]]

\* the target of an in-place operation
InPlace(st, f, t, p, q, mask) ==
  LET x == st.v[t]
      n == Len(x.o)
      o == Where(mask, Map2(f, ObsOf(st, p, n), ObsOf(st, q, n)), x.o)
      l == Where(mask, Map2(f, LatOf(st, p, n), LatOf(st, q, n)), x.l)
  IN  IF x.k = "sv" THEN Sv(o, l, x.s) ELSE Arr(o)

Pick(x, ix) == [j \in 1..Len(ix) |-> x[ix[j] + 1]]
Idx(st, a, ix) ==
  LET x == st.v[a]
  IN  IF x.k = "sv" THEN Sv(Pick(x.o, ix), Pick(x.l, ix), Pick(x.s, ix)) ELSE Arr(Pick(x.o, ix))

Those(s, b) == SelectSeq([i \in 1..Len(s) |-> i - 1], LAMBDA i : s[i + 1] = b)
Part(st, a, b) ==
  LET x == st.v[a]
      ix == Those(x.s, b)
  IN  Sv(Pick(x.o, ix), Pick(x.l, ix), [j \in 1..Len(ix) |-> b])

RECURSIVE Fold(_, _, _)
Fold(f, x, z) == IF x = <<>> THEN z ELSE Fold(f, Tail(x), F2(f, z, Head(x)))
Red(f, x) == IF f \in {"maximum", "minimum"} THEN Fold(f, Tail(x), Head(x)) ELSE Fold(f, x, 0)
Acc(f, x) == [i \in 1..Len(x) |-> Fold(f, SubSeq(x, 2, i), x[1])]

Put(st, id, x) == Upd(st.v, id, x)

\* all variables after e
Expect(st, e) ==
  CASE e.op = "new" ->
         Put(st, e.r, IF e.k = "sv" THEN Sv(e.o, e.l, e.s) ELSE Arr(e.o))
    [] e.op = "bin" -> Put(st, e.r, Bin(st, e.f, e.a, e.b))
    [] e.op = "un" -> Put(st, e.r, Un(st, e.f, e.a))
    [] e.op = "inp" -> Put(st, e.r, InPlace(st, e.f, e.r, e.a, e.b, e.mask))
    [] e.op = "divmod" ->
         Upd(Put(st, e.r, Bin(st, "floor_divide", e.a, e.b)), e.r2, Bin(st, "remainder", e.a, e.b))
    [] e.op = "acc" ->
         LET x == st.v[e.a]
         IN  Put(st, e.r, IF x.k = "sv" THEN Sv(Acc(e.f, x.o), Acc(e.f, x.l), x.s)
                          ELSE Arr(Acc(e.f, x.o)))
    [] e.op = "idx" -> Put(st, e.r, Idx(st, e.a, e.ix))
    [] e.op = "part" -> Put(st, e.r, Part(st, e.a, e.sel))
    [] e.op = "copy" -> Put(st, e.r, st.v[e.a])
    [] OTHER -> st.v

\* the observed state is carried on, so that one deviation is reported once
Apply(st, e) == IF e.op = "reset" THEN InitSt ELSE [v |-> e.all]

Results(e) == (IF "r" \in DOMAIN e THEN {e.r} ELSE {}) \cup (IF "r2" \in DOMAIN e THEN {e.r2} ELSE {})

Check(st, e) ==
  IF e.op = "reset" THEN {}
  ELSE IF ~e.ok THEN {"C13:an operation fails with " \o e.err}
  ELSE
  LET w == Expect(st, e)
  IN
  If(DOMAIN w = DOMAIN e.all, "C13:variables appear or vanish")
  \cup If(\A x \in (DOMAIN w \cap DOMAIN e.all) \ Results(e) : w[x] = e.all[x],
          "C13:an operand or another variable changed")
  \cup UNION { IF x \notin DOMAIN e.all THEN {}
               ELSE If(w[x].k = e.all[x].k, "C13:result has another type")
                    \cup If(w[x].o = e.all[x].o, "C13:wrong observed values")
                    \cup If(w[x].l = e.all[x].l, "C13:wrong latent values")
                    \cup If(w[x].s = e.all[x].s, "C13:wrong selection")
               : x \in Results(e) \cap DOMAIN w }
  \cup (CASE e.op = "red" -> If(e.val = Red(e.f, st.v[e.a].o), "C13:wrong reduction")
          [] e.op = "item" -> If(e.val = st.v[e.a].o[e.i + 1], "C13:wrong item")
          [] e.op = "opaque" ->
               If(e.got.o = e.want.o, "C13:wrong observed values of another function")
               \cup If(e.got.l = e.want.l, "C13:wrong latent values of another function")
               \cup If(e.got.s = st.v[e.a].s, "C13:wrong selection of another function")
          [] OTHER -> {})
=============================================================================
