------------------------------ MODULE Response ------------------------------
(***************************************************************************)
(* Requests for linear-response blocks.  The machine is a state, a list of *)
(* terms, and for each kind of block a table of answers already given      *)
(* under the name the caller gave to (state, terms).  A request for a pair *)
(* of sites looks its key up in the table, then the key of the exchanged   *)
(* pair, and otherwise computes and remembers.  Whatever was asked before, *)
(* the answer is the block of that pair at the present state.              *)
(* With Joined the keys are the digits of the two sites run together, a    *)
(* design that is refuted on chains of more than eleven sites.             *)
(***************************************************************************)
EXTENDS Points, Json
CONSTANTS SeedLo, SeedHi, Depth, MinL, MaxL, MaxD, Joined
VARIABLES seed, d, L, As, terms, version, tables, names, answer, hist, init
vars == <<seed, d, L, As, terms, version, tables, names, answer, hist, init>>

Kinds == {"F1", "F2", "open"}
Digits(i) == IF i < 10 THEN <<i>> ELSE <<i \div 10, i % 10>>
KeyOf(p) == IF Joined THEN FlattenSeq([x \in 1..Len(p) |-> Digits(p[x])]) ELSE p
Swap(p) == [p EXCEPT ![1] = p[2], ![2] = p[1]]

Sit == [s |-> seed, n |-> Len(hist), L |-> L, d |-> d, ts |-> terms, v |-> version, tab |-> tables, nm |-> names]
H(c, i) == Rnd(c.s, 5000 + 41*c.n + i)
\* pairs whose digits run together alike
Alike == <<<<1, 11>>, <<11, 1>>, <<1, 10>>, <<11, 0>>, <<1, 11>>, <<11, 1>>, <<0, 11>>, <<11, 11>>>>
PairOf(c) == IF c.L > 11 /\ H(c, 7) % 3 # 0 THEN Pick(c.s, 5000 + 41*c.n + 8, Alike)
             ELSE <<H(c, 9) % c.L, H(c, 10) % c.L>>

\* look up, or compute and remember
Ask(c, k, p, memo) ==
  LET same == memo # 0 /\ c.nm[k] = memo
      tab == IF same THEN c.tab[k] ELSE {}
      hit == {e \in tab : e.key = KeyOf(p)}
      flip == {e \in tab : e.key = KeyOf(Swap(p))}
      ans == IF hit # {} THEN (CHOOSE e \in hit : TRUE).val
             ELSE IF flip # {} THEN LET w == (CHOOSE e \in flip : TRUE).val IN [w EXCEPT !.of = Swap(w.of)]
             ELSE [of |-> p, v |-> c.v]
      keep == IF hit = {} /\ flip = {} THEN {[key |-> KeyOf(p), val |-> ans]} ELSE {} IN
  [tab |-> [c.tab EXCEPT ![k] = tab \cup keep], nm |-> [c.nm EXCEPT ![k] = memo], ans |-> ans]

Ops == <<"F1", "F2", "gamma", "open", "F1", "F2", "jac", "terms", "lcan", "rcan", "F1", "F2", "dA", "gamma">>
LongOps == <<"F1", "F2", "F1", "F2", "open", "F1", "F2", "gamma">>
OpOf(c) == IF c.n = 0 THEN "terms" ELSE IF c.L > 11 THEN Pick(c.s, 5000 + 41*c.n, LongOps) ELSE Pick(c.s, 5000 + 41*c.n, Ops)
Do(c, op) ==
  LET p == PairOf(c)
      \* a name stands for one state and one list of terms
      memo == IF H(c, 3) % 4 = 0 THEN 0 ELSE 1 + c.v
      no == [of |-> p, v |-> c.v] IN
  CASE op \in {"lcan", "rcan"} -> [tab |-> c.tab, nm |-> c.nm, ts |-> c.ts, v |-> c.v + 1, ask |-> p, ans |-> [no EXCEPT !.v = c.v + 1], log |-> [op |-> op]]
    [] op = "terms" -> LET ts == TLCEval([k \in 1..(c.L-1) |-> Term(c.s, 9000 + 100*c.n + 400*k, c.d)]) IN
         [tab |-> c.tab, nm |-> c.nm, ts |-> ts, v |-> c.v + 1, ask |-> p, ans |-> [no EXCEPT !.v = c.v + 1], log |-> [op |-> op, ts |-> ts]]
    [] op \in {"F1", "F2"} -> LET a == Ask(c, op, p, memo) IN
         [tab |-> a.tab, nm |-> a.nm, ts |-> c.ts, v |-> c.v, ask |-> p, ans |-> a.ans,
          log |-> [op |-> op, i |-> p[1], j |-> p[2], memo |-> memo, full |-> H(c, 4) % 5 = 0]]
    [] op = "open" -> LET k == IF H(c, 5) % 3 = 0 THEN H(c, 6) % c.L ELSE Min2(p[1], p[2])
                          q == <<p[1], p[2], k>>  a == Ask(c, "open", q, memo) IN
         [tab |-> a.tab, nm |-> a.nm, ts |-> c.ts, v |-> c.v, ask |-> q, ans |-> a.ans,
          log |-> [op |-> op, i |-> p[1], j |-> p[2], k |-> k, memo |-> memo]]
    [] op = "gamma" -> [tab |-> c.tab, nm |-> c.nm, ts |-> c.ts, v |-> c.v, ask |-> p, ans |-> no,
          log |-> [op |-> op, i |-> p[1], j |-> p[2], memo |-> memo]]
    \* the assembled matrices ask for every block under a name of their own
    [] op \in {"jac", "dA"} -> [tab |-> [k \in Kinds |-> {}], nm |-> [k \in Kinds |-> 0], ts |-> c.ts, v |-> c.v, ask |-> p, ans |-> no, log |-> [op |-> op]]
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ OpOf(c) = op
       /\ \E r \in {TLCEval(Do(c, op))} :
            /\ tables' = r.tab /\ names' = r.nm /\ terms' = r.ts /\ version' = r.v
            /\ answer' = [ask |-> r.ask, ans |-> r.ans] /\ hist' = Append(hist, r.log)
  /\ UNCHANGED <<seed, d, L, As, init>>
Next == \/ Step("F1")
        \/ Step("F2")
        \/ Step("gamma")
        \/ Step("open")
        \/ Step("jac")
        \/ Step("dA")
        \/ Step("terms")
        \/ Step("lcan")
        \/ Step("rcan")
InitOf(s) ==
  LET L0 == MinL + (Rnd(s, 2) % (MaxL - MinL + 1))
      d0 == IF Rnd(s, 1) % 4 = 0 /\ L0 < 5 THEN 3 ELSE 2
      bs == IF L0 > 6 THEN StdBonds(d0, L0, MaxD) ELSE IF L0 = 5 \/ d0 = 3 THEN Profile(s, d0, L0, 2) ELSE Profile(s, d0, L0, MaxD)
      Bs == TLCEval(RndChain(s, d0, L0, bs, 1))
      v == IF L0 > 6 THEN <<>> ELSE TLCEval(Dense(Bs))
  IN [d |-> d0, L |-> L0, As |-> Bs, psi |-> v,
      ok |-> L0 > 6 \/ (~IsZeroVec(v) /\ \A k \in 0..L0 : SchmidtRank(v, d0, L0, k) = bs[k+1])]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ c.ok
  /\ seed = s /\ d = c.d /\ L = c.L /\ As = c.As /\ terms = <<>> /\ version = 0
  /\ tables = [k \in Kinds |-> {}] /\ names = [k \in Kinds |-> 0]
  /\ answer = [ask |-> <<0, 0>>, ans |-> [of |-> <<0, 0>>, v |-> 0]] /\ hist = <<>>
  /\ init = [d |-> c.d, L |-> c.L, tensors |-> c.As, psi |-> c.psi]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
Remembered == answer.ans = [of |-> answer.ask, v |-> version]
\* the blocks themselves, in the coordinates of the tensors: hermitian, and second derivatives commute
Hessian == (Len(hist) = 1) => \E c \in {[As |-> As, ts |-> terms, L |-> L, d |-> d]} :
  Pow(c.d, c.L) <= 8 =>
    LET T == TLCEval(Tangents(c.As, c.L))
        HT == TLCEval([a \in 1..Len(T) |-> HPsi(T[a], c.d, c.L, c.ts, c.L-1)]) IN
    \A a, b \in 1..Len(T) : Inner(T[a], HT[b]) = CConj(Inner(T[b], HT[a]))
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
