------------------------------- MODULE Weights -------------------------------
(***************************************************************************)
(* Site matrices and bond weights of finite chains.  A state is a ray; at  *)
(* every cut it has an exact reduced density matrix (Gaussian integers     *)
(* over the squared norm) whose eigenvalues are the squares of the bond    *)
(* weights.  Converting to the bond-weight form and back, sweeping, or     *)
(* unitary one-site maps keep the weights; other one-site maps move the    *)
(* ray, and with it the weights.                                           *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, d, L, psi, grams, hist, init
vars == <<seed, d, L, psi, grams, hist, init>>

H(n, i) == Rnd(seed, 9000 + 61*n + i)
AnyMap(n) == LET p == H(n, 1) % 3 IN
  IF p = 0 THEN Mat(d, d, LAMBDA a, b : IF a = (b % d) + 1 THEN CI ELSE C0)
  ELSE IF p = 1 THEN Mat(d, d, LAMBDA a, b : IF a = b THEN <<a, 0>> ELSE C0)
  ELSE Mat(d, d, LAMBDA a, b : IF a = b THEN C1 ELSE IF b > a THEN RndC(seed, 9500 + 10*n + a, 1) ELSE C0)
IsUnitary(O) == ScalarOf(MMul(O, MDag(O))) > 0

Small(v) == \A i \in 1..Len(v) : Abs(v[i][1]) <= 300 /\ Abs(v[i][2]) <= 300
Edit == LET n == Len(hist) IN
  /\ Len(hist) < Depth /\ H(n, 0) % 4 = 0
  /\ \E k \in {H(n, 2) % L} : \E O \in {TLCEval(AnyMap(n))} : \E v \in {Primitive(ApplyBlock(psi, d, L, k, 1, O))} :
       /\ Small(v)
       /\ psi' = v /\ grams' = Grams(v, d, L)
       /\ hist' = Append(hist, [op |-> "edit", k |-> k, O |-> O, psi |-> v, grams |-> Grams(v, d, L)])
  /\ UNCHANGED <<seed, d, L, init>>
Same == LET n == Len(hist) IN
  /\ Len(hist) < Depth
  /\ \/ H(n, 0) % 4 # 0
     \/ ~Small(Primitive(ApplyBlock(psi, d, L, H(n, 2) % L, 1, AnyMap(n))))
  /\ hist' = Append(hist, [op |-> <<"turn", "turn", "left", "right", "look", "copy">>[1 + (H(n, 3) % 6)]])
  /\ UNCHANGED <<seed, d, L, psi, grams, init>>
Next == \/ Edit
        \/ Same

Start(s) ==
  LET d0 == Pick(s, 1, <<2, 2, 2, 3>>)
      L0 == IF d0 = 3 THEN RndIn(s, 2, 2, 3) ELSE RndIn(s, 2, 2, 5)
      fam == Pick(s, 3, Families)
      As == Chain(fam, s, IF fam \in {"cluster"} THEN 2 ELSE d0, L0, 3, 2) IN
  [As |-> As, d |-> Len(As[1]), L |-> Len(As), fam |-> fam]
Init == /\ seed \in SeedLo..SeedHi
        /\ \E c \in {TLCEval(Start(seed))} : \E v \in {TLCEval(Dense(c.As))} :
             /\ ~IsZeroVec(v) /\ Small(Primitive(v)) /\ c.L >= 2
             /\ init = c /\ d = c.d /\ L = c.L /\ psi = Primitive(v) /\ grams = Grams(Primitive(v), c.d, c.L)
        /\ hist = <<>>
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
TypeOK == Len(psi) = Pow(d, L) /\ ~IsZeroVec(psi) /\ Len(grams) = L+1
\* every cut carries the whole norm, no more weights than either side allows
Normed == \A k \in 1..(L+1) : MTr(grams[k])[1] = Norm2(psi) /\ Len(grams[k]) = Min2(Pow(d, k-1), Pow(d, L+1-k))
Hermitians == \A k \in 1..(L+1) : IsHermitian(grams[k])
\* one-site unitaries leave the purity at every cut alone (the purity fixes the weights of a two-level cut)
Purity(G) == MTr(MMul(G, G))[1]
UnitaryFrame == [][ (Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "edit" /\ IsUnitary(hist'[Len(hist')].O) /\ Norm2(psi) < 2000)
                     => Norm2(psi') = Norm2(psi) /\ \A k \in 1..(L+1) : Purity(grams'[k]) = Purity(grams[k]) ]_vars
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, fam |-> init.fam, tensors |-> init.As, d |-> d, L |-> L,
                 psi0 |-> Primitive(Dense(init.As)), grams0 |-> Grams(Primitive(Dense(init.As)), d, L), hist |-> hist])>>)
=============================================================================
