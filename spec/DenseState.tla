----------------------------- MODULE DenseState -----------------------------
(***************************************************************************)
(* A many-body state as a dense tensor and as a chain, and the conversions *)
(* between the two: which holds the state changes, the ray does not.       *)
(* "split" conversions leave every site an isometry in one direction and   *)
(* bonds no larger than the cut.                                           *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth, MaxL
VARIABLES seed, d, L, psi, as, form, hist, init
vars == <<seed, d, L, psi, as, form, hist, init>>
H(i) == Rnd(seed, 80000 + 97*Len(hist) + i)

Steps == <<"left", "right", "recombine", "lcan", "rcan", "phase">>
Pickd(en) == en[1 + (H(1) % Len(en))]
Enabled == IF as = "dense" THEN <<"left", "right", "left", "right", "phase">>
           ELSE IF L >= 2 THEN <<"recombine", "recombine", "lcan", "rcan">> ELSE <<"recombine">>
Step(op) ==
  /\ Len(hist) < Depth /\ Pickd(Enabled) = op
  /\ as' = (CASE op \in {"left", "right"} -> "chain" [] op = "recombine" -> "dense" [] OTHER -> as)
  /\ form' = (CASE op \in {"left", "lcan"} -> "A" [] op \in {"right", "rcan"} -> "B" [] OTHER -> "N")
  /\ hist' = Append(hist, [op |-> op, form |-> form'])
  /\ UNCHANGED <<seed, d, L, psi, init>>
Next == \/ Step("left")
        \/ Step("right")
        \/ Step("recombine")
        \/ Step("lcan")
        \/ Step("rcan")
        \/ Step("phase")
Spec0(s) ==
  LET d0 == IF Rnd(s, 1) % 3 = 0 THEN (IF Rnd(s, 5) % 3 = 0 THEN 4 ELSE 3) ELSE 2
      mL == IF d0 >= 3 THEN Min2(MaxL, IF d0 = 4 THEN 3 ELSE 4) ELSE MaxL
      L0 == 1 + (Rnd(s, 2) % mL)
      n == Pow(d0, L0)
      kind == Rnd(s, 4) % 4
      v == IF kind = 0 THEN RndVec(s, 100, n, 2)
           ELSE IF kind = 1 THEN TLCEval([i \in 1..n |-> IF Rnd(s, 300 + i) % 4 = 0 THEN RndC(s, 900 + i, 2) ELSE C0])
           ELSE IF L0 = 1 THEN RndVec(s, 100, n, 2)
           ELSE Dense(Chain(Pick(s, 3, Families), s, d0, L0, 2, 1))
  IN [d |-> d0, L |-> L0, v |-> v]
\* arbitrary tensors with arbitrary bonds, to be recombined as they are
ChainOf(s, d0, L0) == RndChain(s, d0, L0, RndBonds(s, L0, 3), 2)
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(Spec0(s))} :
  /\ ~IsZeroVec(c.v)
  /\ seed = s /\ d = c.d /\ L = c.L /\ psi = c.v /\ as = "dense" /\ form = "N" /\ hist = <<>>
  /\ init = [d |-> c.d, L |-> c.L, psi |-> c.v,
             ranks |-> TLCEval([k \in 1..(c.L+1) |-> Rank(CutMatrix(c.v, c.d, c.L, k-1))]),
             chain |-> ChainOf(s, c.d, c.L), chainv |-> Dense(ChainOf(s, c.d, c.L))]
Spec == Init /\ [][Next]_vars
Holds == /\ as \in {"dense", "chain"} /\ (as = "dense" => form = "N")
         /\ \A k \in 1..(L+1) : init.ranks[k] <= Min2(Pow(d, k-1), Pow(d, L-k+1))
Keeps == [][psi' = psi /\ L' = L /\ d' = d]_vars
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
