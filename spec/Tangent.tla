------------------------------- MODULE Tangent -------------------------------
(***************************************************************************)
(* The tangent space of the manifold of matrix product states and the      *)
(* velocity on it.  A point is a chain of tensors of full bond rank; its   *)
(* tangent vectors are the chains with one tensor replaced by anything.    *)
(* The velocity is the orthogonal projection of -i(H - <H>)psi.  The       *)
(* projection itself is not a rational vector, but its normal equations    *)
(* are: for every tangent vector t, <t|v> = -i <t|G> / n, where            *)
(*     G = n H psi - <psi|H|psi> psi,     n = <psi|psi>,                   *)
(* (the velocity is linear in the length of the vector: in a form that is  *)
(* not normalised it is that much longer)                                  *)
(* all Gaussian integers.  The machine moves around the orbit of one point *)
(* under gauge changes and forms, and swaps terms of the Hamiltonian; the  *)
(* answers depend on the ray and the Hamiltonian only.                     *)
(***************************************************************************)
EXTENDS Points, Json
CONSTANTS SeedLo, SeedHi, Depth, MinL, MaxL, MaxD
VARIABLES seed, d, L, As, psi, terms, form, hist, init
vars == <<seed, d, L, As, psi, terms, form, hist, init>>

\* change of gauge on bond k by an invertible integer matrix of determinant one
Shear(D, a, b, c) == Mat(D, D, LAMBDA i, j : IF i = j THEN C1 ELSE IF i = a /\ j = b THEN c ELSE C0)
Regauge(Bs, k, a, b, c) ==
  LET D == Shape(Bs[k])[3]  g == Shear(D, a, b, c)  gi == Shear(D, a, b, CNeg(c)) IN
  [Bs EXCEPT ![k] = TLCEval([s \in 1..Len(Bs[k]) |-> MMul(Bs[k][s], g)]),
             ![k+1] = TLCEval([s \in 1..Len(Bs[k+1]) |-> MMul(gi, Bs[k+1][s])])]

Sit == [s |-> seed, n |-> Len(hist), d |-> d, L |-> L, As |-> As, psi |-> psi, ts |-> terms, f |-> form]
H(c, i) == Rnd(c.s, 5000 + 31*c.n + i)
Ops == <<"lcan", "rcan", "velocity", "swap", "gauge", "velocity", "pack", "velocity", "rcan">>
Do(c, op) ==
  CASE op \in {"lcan", "rcan"} -> [As |-> c.As, ts |-> c.ts, f |-> op, log |-> [op |-> op]]
    [] op = "gauge" ->
         LET k == 1 + (H(c, 3) % (c.L-1))  D == Shape(c.As[k])[3]
             a == 1 + (H(c, 4) % D)  b == 1 + (a % D)
             Bs == IF D = 1 THEN c.As ELSE Regauge(c.As, k, a, b, RndC(c.s, 700 + 9*c.n, 1)) IN
         [As |-> Bs, ts |-> c.ts, f |-> "raw", log |-> [op |-> op, As |-> Bs]]
    [] op = "velocity" -> LET hv == TLCEval(HPsi(c.psi, c.d, c.L, c.ts, c.L-1)) IN
         [As |-> c.As, ts |-> c.ts, f |-> c.f, log |-> [op |-> op, ts |-> c.ts, G |-> Grad(c.psi, hv), n |-> Norm2(c.psi),
              e |-> Inner(c.psi, hv)[1], raw |-> c.f = "raw"]]
    [] op = "pack" -> [As |-> c.As, ts |-> c.ts, f |-> c.f, log |-> [op |-> op, dim |-> DimOf(c.As) - 1,
              x |-> RndVec(c.s, 6000 + 50*c.n, DimOf(c.As) - 1, 3)]]
    [] op = "swap" -> LET k == 1 + (H(c, 3) % (c.L-1)) IN
         [As |-> c.As, ts |-> [c.ts EXCEPT ![k] = TLCEval(Term(c.s, 9000 + 100*c.n, c.d))], f |-> c.f, log |-> [op |-> op]]
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ Ops[1 + (H(c, 2) % Len(Ops))] = op
       /\ \E r \in {TLCEval(Do(c, op))} : As' = r.As /\ terms' = r.ts /\ form' = r.f /\ hist' = Append(hist, r.log)
  /\ UNCHANGED <<seed, d, L, psi, init>>
Next == \/ Step("lcan")
        \/ Step("rcan")
        \/ Step("velocity")
        \/ Step("gauge")
        \/ Step("swap")
        \/ Step("pack")

InitOf(s) ==
  LET d0 == IF Rnd(s, 1) % 4 = 0 THEN 3 ELSE 2
      L0 == IF d0 = 3 THEN 2 + (Rnd(s, 2) % 2) ELSE MinL + (Rnd(s, 2) % (MaxL + 1 - MinL))
      bs == Profile(s, d0, L0, MaxD)
      Bs == TLCEval(RndChain(s, d0, L0, bs, 1))
      v == TLCEval(Dense(Bs))
  IN [d |-> d0, L |-> L0, As |-> Bs, psi |-> v, ts |-> TLCEval([k \in 1..(L0-1) |-> Term(s, 400*k, d0)]),
      ok |-> /\ L0 >= MinL /\ ~IsZeroVec(v) /\ Norm2(v) <= 3000
             /\ \A k \in 0..L0 : SchmidtRank(v, d0, L0, k) = bs[k+1]]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ c.ok
  /\ seed = s /\ d = c.d /\ L = c.L /\ As = c.As /\ psi = c.psi /\ terms = c.ts /\ form = "raw" /\ hist = <<>>
  /\ init = [d |-> c.d, L |-> c.L, tensors |-> c.As, psi |-> c.psi]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
\* the chain always represents psi, and its tangent space has the stated dimension and contains psi
RightSpace == \A c \in {Sit} : (c.n = 0 \/ form = "raw") =>
  /\ Dense(c.As) = c.psi
  /\ (Len(c.psi) <= 16 /\ c.n <= 3) => \A T \in {TLCEval(Tangents(c.As, c.L))} : \E r \in {Rank(T)} :
       /\ r = DimOf(c.As)
       /\ Rank(Append(T, c.psi)) = r
\* the direction of steepest descent is orthogonal to the state, and it changes nothing at an eigenvector
Perp == (hist # <<>> /\ hist[Len(hist)].op = "velocity") => \A g \in {hist[Len(hist)].G} : Inner(psi, g) = C0
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
