------------------------------ MODULE Requests -----------------------------
(***************************************************************************)
(* Asking for random states.  One object of each class is asked again and  *)
(* again, for other lengths, local dimensions and bonds, and is brought to *)
(* some form or measured in between: what it then is depends on the last   *)
(* request only.  The model knows the shape of every tensor, what forms    *)
(* may be claimed, and the Schmidt ranks a state without special structure *)
(* has across every cut.                                                   *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, req, claim, hist
vars == <<seed, req, claim, hist>>
Classes == <<"fMPS", "fMPS", "fTFD", "iMPS", "ivMPS", "fMPO", "fPEPS">>
\* bonds of an open chain; Dm = 0: no bound
Bd(d, L, Dm, k) == Min2(Pow(d, Min2(k, L-k)), IF Dm = 0 THEN Pow(d, L) ELSE Dm)
Open(d, L, Dm) == TLCEval([k \in 1..L |-> <<d, Bd(d, L, Dm, k-1), Bd(d, L, Dm, k)>>])
Edge(k, n, x) == IF k = 0 \/ k = n THEN 1 ELSE x
ShapesOf(r) ==
  CASE r.class = "fMPS" -> Open(r.d, r.L, r.D)
    [] r.class = "fTFD" -> IF r.flag = 1 THEN [k \in 1..r.L |-> LET t == Open(r.d, r.L, r.D)[k] IN <<t[1]*t[1], t[2]*t[2], t[3]*t[3]>>]
                           ELSE <<>>
    [] r.class \in {"iMPS", "ivMPS"} -> [k \in 1..r.L |-> <<r.d, r.D, r.D>>]
    [] r.class = "fMPO" -> [k \in 1..r.L |-> <<r.d, Edge(k, r.L, r.D), r.d, Edge(k-1, r.L, r.D)>>]
    [] r.class = "fPEPS" -> [k \in 1..(r.L*r.W) |->
         LET x == 1 + ((k-1) % r.L)  y == 1 + ((k-1) \div r.L) IN
         <<r.d, Edge(y-1, r.W, r.D), Edge(x, r.L, r.D), Edge(y, r.W, r.D), Edge(x-1, r.L, r.D)>>]
\* generic ranks across the cuts of an open chain
GenRanks(r) == IF r.class = "fMPS" THEN [k \in 1..(r.L-1) |-> Bd(r.d, r.L, r.D, k)]
            ELSE IF r.class = "fTFD" /\ r.flag = 1 THEN [k \in 1..(r.L-1) |-> Bd(r.d, r.L, r.D, k)*Bd(r.d, r.L, r.D, k)] ELSE <<>>
Greater(a, b) == Max2(a, b)
Largest(r) == LET ss == ShapesOf(r) IN FoldLeft(LAMBDA m, t : Greater(m, FoldLeft(Greater, 1, Tail(t))), 1, ss)
Ask(s, n) ==
  LET b == 100 + 40*n
      c == Pick(s, b+1, Classes)
      d == IF c = "fMPS" THEN 2 + (Rnd(s, b+2) % 2) ELSE IF c = "fMPO" THEN 1 + (Rnd(s, b+2) % 3) ELSE IF c = "fTFD" THEN 2 ELSE 2 + (Rnd(s, b+2) % 2)
      L == CASE c = "fMPS" -> 1 + (Rnd(s, b+3) % (IF d = 2 THEN 6 ELSE 4))
             [] c = "fTFD" -> 2 + (Rnd(s, b+3) % 2)
             [] c = "fMPO" -> 1 + (Rnd(s, b+3) % 4)
             [] c = "fPEPS" -> 1 + (Rnd(s, b+3) % 3)
             [] OTHER -> 1 + (Rnd(s, b+3) % 2)
      W == IF c = "fPEPS" THEN (IF L = 1 THEN 2 ELSE 1 + (Rnd(s, b+4) % 3)) ELSE 1
      D == IF c = "fMPS" THEN Rnd(s, b+5) % 7 ELSE 1 + (Rnd(s, b+5) % (IF c = "fTFD" THEN 2 ELSE 3)) IN
  [class |-> c, d |-> d, L |-> L, W |-> W, D |-> D, flag |-> Rnd(s, b+6) % 2]
Log(e, r) == Append(hist, e @@ [req |-> r, shapes |-> ShapesOf(r), ranks |-> GenRanks(r), largest |-> Largest(r)])
Init == \E s \in SeedLo..SeedHi :
  /\ seed = s /\ claim = "none"
  /\ \E r \in {Ask(s, 0)} : req = r /\ hist = <<[do |-> "ask", k |-> 0, req |-> r, shapes |-> ShapesOf(r), ranks |-> GenRanks(r), largest |-> Largest(r)]>>
H(i) == Rnd(seed, 3000 + 20*Len(hist) + i)
AskAgain ==
  /\ Len(hist) < Depth /\ H(1) % 2 = 0
  /\ \E r \in {Ask(seed, Len(hist))} :
       /\ req' = r /\ claim' = "none" /\ hist' = Log([do |-> "ask", k |-> 0], r)
  /\ UNCHANGED seed
\* open chains, uniform chains of period one and lattices are brought to forms
Formed(r) == r.class \in {"fMPS", "fPEPS"} \/ (r.class = "iMPS" /\ r.L = 1)
FormsOf(r) == IF r.class = "fMPS" THEN <<"left", "right", "mixed", "orthogonal", "measure">>
              ELSE IF r.class = "iMPS" THEN <<"left", "right", "mixed">> ELSE <<"orthogonal">>
Form(f) ==
  /\ Len(hist) < Depth /\ H(1) % 2 = 1
  /\ Formed(req)
  /\ f = Pick(seed, 3000 + 20*Len(hist) + 2, FormsOf(req))
  /\ claim' = IF f = "measure" THEN claim ELSE f
  /\ hist' = Log([do |-> f, k |-> H(3) % req.L, y |-> H(4) % req.W], req)
  /\ UNCHANGED <<seed, req>>
Skip ==
  /\ Len(hist) < Depth /\ H(1) % 2 = 1
  /\ ~Formed(req)
  /\ \E r \in {Ask(seed, 50 + Len(hist))} :
       /\ req' = r /\ claim' = "none" /\ hist' = Log([do |-> "ask", k |-> 0], r)
  /\ UNCHANGED seed
Next == \/ AskAgain
        \/ Form("left")
        \/ Form("right")
        \/ Form("mixed")
        \/ Form("orthogonal")
        \/ Form("measure")
        \/ Skip
Spec == Init /\ [][Next]_vars
(* ------------------------- checked on the model ------------------------- *)
\* neighbours fit, ends are closed, no bond is larger than it can be filled or than asked
Fits == req.class \in {"fMPS", "fMPO"} => \A r \in {req} : \A ss \in {ShapesOf(r)} :
  /\ Len(ss) = r.L
  /\ r.class = "fMPS" => /\ ss[1][2] = 1 /\ ss[r.L][3] = 1
                         /\ \A k \in 1..(r.L-1) : ss[k][3] = ss[k+1][2] /\ ss[k][3] <= ss[k][1]*ss[k][2] /\ ss[k+1][2] <= ss[k+1][1]*ss[k+1][3]
                         /\ r.D # 0 => Largest(r) <= r.D
  /\ r.class = "fMPO" => ss[1][4] = 1 /\ ss[r.L][2] = 1 /\ \A k \in 1..(r.L-1) : ss[k][2] = ss[k+1][4]
\* no chain of these shapes has larger ranks
NoMore == (req.class = "fMPS" /\ hist[Len(hist)].do = "ask" /\ Pow(req.d, req.L) <= 64) =>
  \A r \in {req} : \A n \in {Len(hist)} : \A s \in {seed} :
    \A v \in {Dense(RndChain(s + 31*n, r.d, r.L, TLCEval([k \in 1..(r.L+1) |-> Bd(r.d, r.L, r.D, k-1)]), 2))} :
      \A k \in 1..(r.L-1) : SchmidtRank(v, r.d, r.L, k) <= GenRanks(r)[k]
\* a state may also be asked for by its energy: a classical chain and a target inside its spectrum (times 4)
Aim(s) ==
  LET L == 2 + (Rnd(s, 7001) % 2)
      f == TLCEval([k \in 1..L |-> RndIn(s, 7010+k, -2, 2)])
      j == TLCEval([k \in 1..L |-> RndIn(s, 7030+k, -2, 2)])
      Sp(n, k) == 1 - 2*((n \div Pow(2, L-k)) % 2)
      Lev == TLCEval([n \in 1..Pow(2, L) |-> SumSeq(TLCEval([k \in 1..L |-> f[k]*Sp(n-1, k)])) + SumSeq(TLCEval([k \in 1..(L-1) |-> j[k]*Sp(n-1, k)*Sp(n-1, k+1)]))])
      lo == FoldLeft(Min2, Lev[1], Lev)
      hi == FoldLeft(Max2, Lev[1], Lev) IN
  [L |-> L, f |-> f, j |-> j, lo |-> lo, hi |-> hi, target |-> 4*lo + ((hi-lo)*Pick(s, 7050, <<1, 2, 3>>)), levels |-> Lev]
Inside == \A a \in {Aim(seed)} : a.lo <= a.hi /\ (a.lo < a.hi => a.target > 4*a.lo /\ a.target < 4*a.hi)
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, hist |-> hist, aim |-> Aim(seed)])>>)
=============================================================================
