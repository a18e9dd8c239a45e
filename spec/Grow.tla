-------------------------------- MODULE Grow --------------------------------
(***************************************************************************)
(* Moving between manifolds of different bond dimension.  A state psi of   *)
(* full bond rank is held as a chain whose form changes (canonical forms,  *)
(* an invertible shear of one bond).  On it:                               *)
(*   expand D    the same ray on the bonds of dimension D;                 *)
(*   error       how far H psi is from the tangent space: nothing when the *)
(*               manifold is everything or H is a sum of one-site terms;   *)
(*   step D      one explicit step of H on a bigger manifold: bond k grows *)
(*               by what H can reach, at most d times a neighbour;         *)
(*   grow D      steps until the largest bond is D;                        *)
(*   match       a chain that differs from a reference by a unitary on     *)
(*               every bond becomes the reference, tensor by tensor;       *)
(*   tangent     the tangent vector of one site from its coordinates.      *)
(* The bond profiles are integers; the vectors -i(H - <H>)psi are exact.   *)
(***************************************************************************)
EXTENDS Points, Json
CONSTANTS SeedLo, SeedHi, Depth, MaxL, MaxD
VARIABLES seed, d, L, As, psi, bs, form, hist, init
vars == <<seed, d, L, As, psi, bs, form, hist, init>>

Sit == [s |-> seed, n |-> Len(hist), d |-> d, L |-> L, As |-> As, psi |-> psi, bs |-> bs, f |-> form]
H(c, i) == Rnd(c.s, 5000 + 31*c.n + i)
Top(bs_) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, 1, bs_)

(* ---------------------- the profile of a grown chain --------------------- *)
\* bond k (1 .. L+1; the ends never grow) of a chain with bonds b after a step to D
FullBond(b, d0, k) == d0*b[k-1] = b[k] \/ d0*b[k+1] = b[k]
StepBonds(b, d0, D) == LET n == D - Top(b) IN
  TLCEval([k \in 1..Len(b) |-> IF k = 1 \/ k = Len(b) \/ FullBond(b, d0, k) THEN b[k]
                               ELSE b[k] + Min2(n, Min2(d0*b[k-1] - b[k], d0*b[k+1] - b[k]))])
RECURSIVE GrowBonds(_, _, _, _)
GrowBonds(b, d0, D, fuel) ==
  IF fuel = 0 \/ Top(b) >= Min2(D, Pow(d0, (Len(b)-1) \div 2)) THEN b
  ELSE GrowBonds(StepBonds(b, d0, Min2(d0*Top(b), D)), d0, D, fuel-1)
Possible(b, d0) == \A k \in 2..(Len(b)-1) : b[k] <= d0*b[k-1] /\ b[k] <= d0*b[k+1]

(* ------------------------------ hamiltonians ----------------------------- *)
OneSite(s, i, d0) == MAdd(MKron(RndHerm(s, i, d0, 1), MId(d0)), MKron(MId(d0), RndHerm(s, i+40, d0, 1)))
Terms(c) == LET p == H(c, 6) % 6 IN
  TLCEval([k \in 1..(c.L-1) |-> IF p = 0 THEN OneSite(c.s, 9000 + 100*c.n + 400*k, c.d)
                                ELSE IF p = 1 THEN Term(c.s, 9000 + 100*c.n + 400*k, c.d)
                                ELSE RndHerm(c.s, 9000 + 100*c.n + 400*k, c.d*c.d, 1)])
Local(c) == H(c, 6) % 6 = 0
\* nothing of H psi can be outside: no bond can grow, or no term couples two sites
Inside(c) == Local(c) \/ \A k \in 2..c.L : FullBond(c.bs, c.d, k)

(* -------------------------------- gauges --------------------------------- *)
Shear(D, a, b, x) == Mat(D, D, LAMBDA i, j : IF i = j THEN C1 ELSE IF i = a /\ j = b THEN x ELSE C0)
\* a permutation with phases
Units == <<C1, CI, <<-1, 0>>, <<0, -1>>>>
Mono(s, i, D) == LET r == Rnd(s, i) % D IN
  Mat(D, D, LAMBDA a, b : IF b = 1 + ((a - 1 + r) % D) THEN Units[1 + (Rnd(s, i + a) % 4)] ELSE C0)
\* a real rotation on the first two levels (up to 1/5)
Turn(D) == Mat(D, D, LAMBDA a, b : IF a > 2 \/ b > 2 THEN (IF a = b THEN <<5, 0>> ELSE C0)
                                   ELSE IF a = b THEN <<3, 0>> ELSE IF a < b THEN <<4, 0>> ELSE <<-4, 0>>)
Gauge(c, k, D) == LET M == Mono(c.s, 6000 + 60*c.n + 9*k, D) IN
  IF D > 1 /\ H(c, 20+k) % 2 = 0 THEN [n |-> 5, m |-> TLCEval(MMul(Turn(D), M))] ELSE [n |-> 1, m |-> TLCEval(M)]
Gauges(c) == TLCEval([k \in 1..(c.L-1) |-> Gauge(c, k, c.bs[k+1])])

Ops == <<"lcan", "rcan", "shear", "shear", "error", "error", "step", "step", "grow", "expand", "match", "tangent", "null", "tangent">>
Do(c, op) ==
  CASE op \in {"lcan", "rcan"} -> [f |-> op, log |-> [op |-> op]]
    [] op = "shear" ->
         LET k == 1 + (H(c, 3) % (c.L-1))  D == c.bs[k+1]
             a == 1 + (H(c, 4) % D)  b == 1 + (a % D) IN
         [f |-> "sheared", log |-> [op |-> op, k |-> k-1,
             g |-> IF D = 1 THEN Mat(1, 1, LAMBDA i, j : <<2, 1>>) ELSE Shear(D, a, b, RndC(c.s, 700 + 9*c.n, 1))]]
    [] op = "error" -> LET ts == Terms(c)  hv == TLCEval(HPsi(c.psi, c.d, c.L, ts, c.L-1)) IN
         [f |-> c.f, log |-> [op |-> op, ts |-> ts, hv |-> hv, n |-> Norm2(c.psi), inside |-> Inside(c)]]
    [] op = "step" -> LET ts == Terms(c)  D == Top(c.bs) + (H(c, 7) % (c.d*Top(c.bs) + 1))
                          hv == TLCEval(HPsi(c.psi, c.d, c.L, ts, c.L-1))  nb == StepBonds(c.bs, c.d, D) IN
         [f |-> c.f, log |-> [op |-> op, ts |-> ts, D |-> D, bonds |-> nb, G |-> Grad(c.psi, hv), n |-> Norm2(c.psi),
              \* every direction H can reach is kept
              whole |-> \A k \in 2..c.L : nb[k] >= Min2(c.d*c.bs[k-1], c.d*c.bs[k+1])]]
    [] op = "grow" -> LET D == 1 + (H(c, 7) % (2*c.d*Top(c.bs))) IN
         [f |-> c.f, log |-> [op |-> op, ts |-> Terms(c), D |-> D, bonds |-> GrowBonds(c.bs, c.d, D, 12),
              steps |-> Top(c.bs) < Min2(D, Pow(c.d, c.L \div 2))]]
    [] op = "expand" -> LET D == Top(c.bs) + (H(c, 7) % 3) IN
         [f |-> c.f, log |-> [op |-> op, D |-> D, bonds |-> StdBonds(c.d, c.L, D)]]
    [] op = "match" -> [f |-> c.f, log |-> [op |-> op, us |-> Gauges(c), other |-> RndChain(c.s + 8000 + 11*c.n, c.d, c.L, c.bs, 1),
              other2 |-> [k \in 1..c.L |-> [p \in 1..c.d |-> RndM(c.s, 12000 + 700*c.n + 60*k + 9*p, c.bs[k], c.bs[k+1], 1)]]]]
    [] op = "tangent" -> LET k == 1 + (H(c, 3) % c.L)  dl == c.d*c.bs[k] - c.bs[k+1]  dr == c.bs[k+1] IN
         [f |-> c.f, log |-> [op |-> op, k |-> k-1, rows |-> dl, cols |-> dr,
              x |-> [a \in 1..dl |-> RndVec(c.s, 6000 + 50*c.n + 7*a, dr, 3)],
              all |-> RndVec(c.s, 3000 + 50*c.n, DimOf(c.As) - 1, 3)]]
    [] op = "null" -> [f |-> c.f, log |-> [op |-> op, left |-> [k \in 1..c.L |-> c.d*c.bs[k] - c.bs[k+1]],
                                           right |-> [k \in 1..c.L |-> c.d*c.bs[k+1] - c.bs[k]]]]
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ (IF form = "raw" THEN (IF H(c, 1) % 2 = 0 THEN "lcan" ELSE "rcan") ELSE Ops[1 + (H(c, 2) % Len(Ops))]) = op
       /\ \E r \in {TLCEval(Do(c, op))} : form' = r.f /\ hist' = Append(hist, r.log)
  /\ UNCHANGED <<seed, d, L, As, psi, bs, init>>
Next == \/ Step("lcan")
        \/ Step("rcan")
        \/ Step("shear")
        \/ Step("error")
        \/ Step("step")
        \/ Step("grow")
        \/ Step("expand")
        \/ Step("match")
        \/ Step("tangent")
        \/ Step("null")

InitOf(s) ==
  LET d0 == IF Rnd(s, 1) % 4 = 0 THEN 3 ELSE 2
      L0 == 2 + (Rnd(s, 2) % (IF d0 = 3 THEN 2 ELSE MaxL - 1))
      b == IF Rnd(s, 3) % 5 = 0 THEN FlatBonds(L0, 1) ELSE Profile(s, d0, L0, MaxD)
      Bs == TLCEval(RndChain(s, d0, L0, b, 1))
      v == TLCEval(Dense(Bs))
  IN [d |-> d0, L |-> L0, As |-> Bs, psi |-> v, bs |-> TLCEval([k \in 1..(L0+1) |-> b[k]]),
      ok |-> /\ ~IsZeroVec(v) /\ Norm2(v) <= 3000
             /\ \A k \in 0..L0 : SchmidtRank(v, d0, L0, k) = b[k+1]]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ c.ok
  /\ seed = s /\ d = c.d /\ L = c.L /\ As = c.As /\ psi = c.psi /\ bs = c.bs /\ form = "raw" /\ hist = <<>>
  /\ init = [d |-> c.d, L |-> c.L, tensors |-> c.As, psi |-> c.psi, bonds |-> c.bs]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
RECURSIVE AllIn(_, _, _)
AllIn(T, r, vs) == vs = <<>> \/ (Rank(Append(T, vs[1])) = r /\ AllIn(T, r, Tail(vs)))
\* when the model says that nothing of H psi is outside the tangent space, nothing is
InsideTrue == (hist # <<>> /\ hist[Len(hist)].op = "error") => \A c \in {Sit} : \A h \in {hist[Len(hist)]} :
  (h.inside /\ Len(c.psi) <= 16) => \A T \in {TLCEval(Tangents(c.As, c.L))} : \E r \in {Rank(T)} : AllIn(T, r, <<h.hv>>)
\* profiles stay possible, never shrink, and reach the dimension asked for
Profiles == (hist # <<>> /\ hist[Len(hist)].op \in {"step", "grow", "expand"}) => \A c \in {Sit} : \A h \in {hist[Len(hist)]} :
  /\ Possible(h.bonds, c.d)
  /\ \A k \in 1..(c.L+1) : h.bonds[k] >= c.bs[k]
  /\ h.op # "step" => Top(h.bonds) >= Min2(h.D, Pow(c.d, c.L \div 2))
  /\ Top(h.bonds) <= IF h.D > Top(c.bs) THEN h.D ELSE Top(c.bs)
\* the gauges of a match are unitary: they change the tensors and not the state
RECURSIVE Turned(_, _, _)
Turned(Bs, us, k) == IF k = 0 THEN Bs
  ELSE LET r == Turned(Bs, us, k-1)  g == us[k].m  gi == MDag(g) IN
       [r EXCEPT ![k] = TLCEval([s \in 1..Len(r[k]) |-> MMul(r[k][s], g)]),
                 ![k+1] = TLCEval([s \in 1..Len(r[k+1]) |-> MMul(gi, r[k+1][s])])]
Prod2(us) == FoldLeft(LAMBDA a, u : a*u.n*u.n, 1, us)
Matching == (hist # <<>> /\ hist[Len(hist)].op = "match") => \A c \in {Sit} : \A us \in {hist[Len(hist)].us} :
  /\ \A k \in 1..(c.L-1) : MMul(us[k].m, MDag(us[k].m)) = MScale(<<us[k].n*us[k].n, 0>>, MId(c.bs[k+1]))
  /\ (c.L <= 3) => Dense(Turned(c.As, us, c.L-1)) = VScale(<<Prod2(us), 0>>, c.psi)
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
