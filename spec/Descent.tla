------------------------------- MODULE Descent -------------------------------
(***************************************************************************)
(* Two-site terms h of an infinite chain of qubits built up so that the    *)
(* product state chi chi chi ... stays the ground state with a known       *)
(* energy: energy shifts, terms  g_i - g_i+1  (no energy at all),          *)
(* projectors off chi on one site (these make the ground state unique),    *)
(* and terms B^* B with B a two-site operator that annihilates chi chi.    *)
(* The exact energy of any other product state is an upper bound.          *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, chi, h, e0, hist
vars == <<seed, chi, h, e0, hist>>
Frac(n, m) == LET g == Gcd(Abs(n), m) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, m \div g>>
Rn(s, i, n) == Rnd(s, i) % n
Perp(c) == <<CNeg(CConj(c[2])), CConj(c[1])>>
Outer(u, w) == Mat(Len(u), Len(w), LAMBDA i, j : CMul(u[i], CConj(w[j])))
Add(op, t, de) ==
  /\ h' = MAdd(h, t) /\ e0' = e0 + de
  /\ hist' = Append(hist, op)
  /\ UNCHANGED <<seed, chi>>
Cs(n, i) == Rnd(seed, 7000 + 53*n + i)
Pin == /\ hist = <<>>
       /\ \E P \in {Outer(Perp(chi), Perp(chi))} :
          \E side \in {Cs(0, 1) % 3} :
            Add("pin", IF side = 0 THEN MKron(P, I2) ELSE IF side = 1 THEN MKron(I2, P) ELSE MAdd(MKron(P, I2), MKron(I2, P)), 0)
Shift == LET n == Len(hist) IN
  /\ n > 0 /\ n < Depth /\ Cs(n, 0) % 4 = 0
  /\ \E k \in {(Cs(n, 2) % 7) - 3} : Add("shift", MScale(<<k, 0>>, MId(4)), k)
Tele == LET n == Len(hist) IN
  /\ n > 0 /\ n < Depth /\ Cs(n, 0) % 4 = 1
  /\ \E g \in {RndHerm(seed, 300 + n, 2, 1)} : Add("tele", MSub(MKron(g, I2), MKron(I2, g)), 0)
Bond == LET n == Len(hist) IN
  /\ n > 0 /\ n < Depth /\ Cs(n, 0) % 4 > 1
  /\ \E u \in {Perp(chi)} : \E c \in {chi} :
     \E w \in {VAdd(VAdd(VScale(RndC(seed, 400 + 9*n, 1), Kron(u, c)), VScale(RndC(seed, 401 + 9*n, 1), Kron(c, u))),
                    VScale(RndC(seed, 402 + 9*n, 1), Kron(u, u)))} :
       Add("bond", Outer(w, w), 0)
Next == \/ Pin
        \/ Shift
        \/ Tele
        \/ Bond
Init == /\ seed \in SeedLo..SeedHi /\ hist = <<>> /\ e0 = 0 /\ h = MZero(4, 4)
        /\ \E c \in {RndVec(seed, 10, 2, 1)} : chi = IF IsZeroVec(c) THEN <<C1, C0>> ELSE c
Spec == Init /\ [][Next]_vars
(* ------------------------- checked on the model -------------------------- *)
Hermitian == IsHermitian(h)
\* the energy of chi is e0: exactly, whatever has been added
Energy == \A c \in {chi} : \A cc \in {TLCEval(Kron(c, c))} : Inner(cc, MVec(h, cc)) = <<e0*Norm2(cc), 0>>
\* and no product state lies lower
Lower == \A k \in 1..4 : \A w \in {RndVec(seed, 900 + 5*k, 2, 2)} : \A ww \in {TLCEval(Kron(w, w))} :
   Inner(ww, MVec(h, ww))[1] >= e0*Norm2(ww)
Others(sd, hh) == TLCEval([k \in 1..3 |-> LET w == RndVec(sd, 900 + 5*k, 2, 2)  ww == TLCEval(Kron(w, w)) IN
            [w |-> w, E |-> IF IsZeroVec(w) THEN <<0, 0>> ELSE Frac(Inner(ww, MVec(hh, ww))[1], Norm2(ww))]])
EmitAtEnd == Len(hist) = Depth => \A oth \in {Others(seed, h)} : PrintT(<<"XV", ToJson([seed |-> seed, chi |-> chi, h |-> h, e0 |-> e0, hist |-> hist, others |-> oth])>>)
=============================================================================
