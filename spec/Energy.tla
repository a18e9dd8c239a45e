------------------------------- MODULE Energy -------------------------------
(***************************************************************************)
(* The energy of a chain under a list of two-site terms.  The machine      *)
(* holds the state (a ray) and a list of hermitian terms, one for each     *)
(* bond; steps change the form of the state or one of the terms; asking    *)
(* for the energy, from the list or from the assembled matrix, does not    *)
(* depend on the form.                                                     *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth, MaxL, MaxD
VARIABLES seed, d, L, psi, terms, form, hist, init
vars == <<seed, d, L, psi, terms, form, hist, init>>

Term(s, i, d0) ==
  LET p == Rnd(s, i) % 6 IN
  IF p = 0 THEN MZero(d0*d0, d0*d0)
  ELSE IF p = 1 /\ d0 = 2 THEN MAdd(MKron(Z, Z), MKron(X, I2))
  ELSE IF p = 2 /\ d0 = 2 THEN MKron(X, Y)
  ELSE IF p = 3 THEN MKron(MId(d0), RndHerm(s, i, d0, 1))
  ELSE RndHerm(s, i, d0*d0, 1)
\* H psi
RECURSIVE HPsi(_, _, _, _, _)
HPsi(v, d0, L0, ts, k) == IF k = 0 THEN VScale(C0, v)
  ELSE VAdd(ApplyBlock(v, d0, L0, k-1, 2, ts[k]), HPsi(v, d0, L0, ts, k-1))
Assembled(d0, L0, ts) ==
  FoldLeft(LAMBDA acc, k : MAdd(acc, MKron(MKron(MId(Pow(d0, k-1)), ts[k]), MId(Pow(d0, L0-1-k)))),
           MZero(Pow(d0, L0), Pow(d0, L0)), [k \in 1..(L0-1) |-> k])
Es(v, d0, L0, ts) == TLCEval([k \in 1..(L0-1) |-> ExpBlock(v, d0, L0, k-1, 2, ts[k])])
Sit == [s |-> seed, n |-> Len(hist), d |-> d, L |-> L, psi |-> psi, ts |-> terms, f |-> form, w |-> init.n2]
H(c, i) == Rnd(c.s, 5000 + 31*c.n + i)
Ops == <<"lcan", "rcan", "energy", "full", "swap", "energy", "piece", "reset", "full">>
\* the energy is that of the vector the tensors stand for: the canonical forms are normalised,
\* the tensors as given are not.  Energy = (sum of es) * Weight / den
Weight(c) == IF c.f = "raw" THEN c.w ELSE 1
Do(c, op) ==
  CASE op \in {"lcan", "rcan"} -> [ts |-> c.ts, f |-> op, log |-> [op |-> op]]
    [] op = "reset" -> [ts |-> c.ts, f |-> "raw", log |-> [op |-> op]]
    [] op = "energy" -> [ts |-> c.ts, f |-> c.f, log |-> [op |-> op, ts |-> c.ts, es |-> Es(c.psi, c.d, c.L, c.ts), den |-> Norm2(c.psi), w |-> Weight(c)]]
    [] op = "full" -> [ts |-> c.ts, f |-> c.f, log |-> [op |-> op, ts |-> c.ts, es |-> Es(c.psi, c.d, c.L, c.ts), den |-> Norm2(c.psi), w |-> Weight(c)]]
    \* only the first terms of the list
    [] op = "piece" -> LET m == 1 + (H(c, 3) % (c.L-1))  t2 == SubSeq(c.ts, 1, m) IN
          [ts |-> c.ts, f |-> c.f, log |-> [op |-> op, ts |-> t2, es |-> SubSeq(Es(c.psi, c.d, c.L, c.ts), 1, m), den |-> Norm2(c.psi), w |-> Weight(c)]]
    [] op = "swap" -> LET k == 1 + (H(c, 3) % (c.L-1)) IN
          [ts |-> [c.ts EXCEPT ![k] = TLCEval(Term(c.s, 9000 + 100*c.n, c.d))], f |-> c.f, log |-> [op |-> op]]
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ Ops[1 + (H(c, 2) % Len(Ops))] = op
       /\ \E r \in {TLCEval(Do(c, op))} : terms' = r.ts /\ form' = r.f /\ hist' = Append(hist, r.log)
  /\ UNCHANGED <<seed, d, L, psi, init>>
Next == \/ Step("lcan")
        \/ Step("rcan")
        \/ Step("energy")
        \/ Step("full")
        \/ Step("swap")
        \/ Step("piece")
        \/ Step("reset")
InitOf(s) ==
  LET d0 == IF Rnd(s, 1) % 4 = 0 THEN 3 ELSE 2
      L0 == 2 + (Rnd(s, 2) % (IF d0 = 3 THEN 2 ELSE MaxL - 1))
      As == TLCEval(Chain(Pick(s, 3, Families), s, d0, L0, MaxD, 1))
  IN [d |-> d0, L |-> L0, As |-> As, psi |-> Primitive(Dense(As)), n2 |-> Norm2(Dense(As)), ts |-> TLCEval([k \in 1..(L0-1) |-> Term(s, 400*k, d0)])]
Small(v) == \A i \in 1..Len(v) : Abs(v[i][1]) <= 300 /\ Abs(v[i][2]) <= 300
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ ~IsZeroVec(c.psi) /\ Small(c.psi)
  /\ seed = s /\ d = c.d /\ L = c.L /\ psi = c.psi /\ terms = c.ts /\ form = "raw" /\ hist = <<>>
  /\ init = [d |-> c.d, L |-> c.L, tensors |-> c.As, psi |-> c.psi, n2 |-> c.n2]
Spec == Init /\ [][Next]_vars
\* the terms add up to the assembled operator, which is hermitian
Adds == \A c \in {Sit} : (c.n <= 2) =>
  /\ SumSeq(Es(c.psi, c.d, c.L, c.ts)) = Inner(c.psi, HPsi(c.psi, c.d, c.L, c.ts, c.L-1))[1]
  /\ Len(c.psi) <= 9 => MVec(Assembled(c.d, c.L, c.ts), c.psi) = HPsi(c.psi, c.d, c.L, c.ts, c.L-1)
  /\ \A k \in 1..Len(c.ts) : IsHermitian(c.ts[k])
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
