----------------------------- MODULE ChainWalk -----------------------------
(***************************************************************************)
(* A finite matrix product state as its user sees it: a state machine      *)
(* whose state is the ray of the represented many-body state (an exact     *)
(* Gaussian-integer vector), the form each site tensor is in (A: isometry  *)
(* towards the left, B: towards the right, C: the centre, N: nothing       *)
(* known), and whether the tensors still denote the vector exactly rather  *)
(* than up to a scalar.  Every action is one call of the public interface; *)
(* measuring calls carry the exact value they must return.                 *)
(*                                                                         *)
(* Initial states are numbered by a seed; the arguments of every call are  *)
(* a hash of seed and step.  With Branch = TRUE every kind of call is      *)
(* possible at every step, so TLC visits every sequence of Depth calls     *)
(* (up to argument choice); otherwise the hash also picks the kind.        *)
(***************************************************************************)
EXTENDS MPS, Json

CONSTANTS SeedLo, SeedHi, Depth, Branch, MaxL, MaxD, Fams, Kinds

VARIABLES seed, d, L, psi, form, exact, hist, init

vars == <<seed, d, L, psi, form, exact, hist, init>>

(***************************************************************************)
(* What a call does, as a function of the present situation c (a record    *)
(* s: seed, n: number of calls so far, d, L, psi, exact).  The result has  *)
(* the fields log, psi, L, form, exact.                                    *)
(***************************************************************************)
H(c, i) == Rnd(c.s, 20000 + 97*c.n + i)
Base(c) == 30000 + 211*c.n
Site(c) == H(c, 1) % c.L

\* a hermitian operator on w sites
HermOn(c, w) == LET p == H(c, 5) % 6 IN
  IF w = 1 /\ c.d = 2 /\ p < 3 THEN <<X, Y, Z>>[p+1]
  ELSE IF p = 3 /\ w = 1 THEN MId(c.d)
  ELSE RndHerm(c.s, Base(c), Pow(c.d, w), 1)
\* an invertible one-site map; the first never enlarges amplitudes
PermOn(d0) == Mat(d0, d0, LAMBDA a, b : IF a = (b % d0) + 1 THEN CI ELSE C0)
AnyOn(c) == LET p == H(c, 6) % 4  d0 == c.d IN
  IF p = 0 THEN PermOn(d0)
  ELSE IF p = 1 THEN Mat(d0, d0, LAMBDA a, b : IF a = b THEN <<a, 0>> ELSE C0)
  ELSE IF p = 2 THEN Mat(d0, d0, LAMBDA a, b : IF a = b THEN C1 ELSE IF b > a THEN RndC(c.s, Base(c)+a, 1) ELSE C0)
  ELSE Mat(d0, d0, LAMBDA a, b : IF a = b THEN <<2, 1>> ELSE IF a > b THEN RndC(c.s, Base(c)+b, 1) ELSE C0)

\* one-qubit gates that are integer matrices up to the scale s2: U U^dagger = s2
Gate1(i) == LET p == i % 7 IN
  CASE p = 0 -> I2  [] p = 1 -> X  [] p = 2 -> Y  [] p = 3 -> Z
    [] p = 4 -> <<<<C1, C0>>, <<C0, CI>>>>
    [] p = 5 -> RealM(<<<<1, 1>>, <<1, -1>>>>)
    [] p = 6 -> RealM(<<<<3, 4>>, <<-4, 3>>>>)
CNOT == RealM(<<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,0,1>>, <<0,0,1,0>>>>)
CZ   == RealM(<<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,-1>>>>)
SWAPG == RealM(<<<<1,0,0,0>>, <<0,0,1,0>>, <<0,1,0,0>>, <<0,0,0,1>>>>)
ISWAP == <<<<C1,C0,C0,C0>>, <<C0,C0,CI,C0>>, <<C0,CI,C0,C0>>, <<C0,C0,C0,C1>>>>
CNOTD == <<<<C1,C0,C0,C0>>, <<C0,C0,C0,C1>>, <<C0,C0,CI,C0>>, <<C0,C1,C0,C0>>>>
Ent(i) == <<CNOT, CZ, ISWAP, SWAPG, CNOTD>>[1 + (i % 5)]
Gate2(c) == MMul(MKron(Gate1(H(c, 11)), Gate1(H(c, 12))),
                 MMul(Ent(H(c, 13)), MKron(Gate1(H(c, 14) % 5), Gate1(H(c, 15) % 5))))

\* amplitudes stay small enough for exact 32-bit arithmetic
Bound == 300
Small(v) == \A i \in 1..Len(v) : Abs(v[i][1]) <= Bound /\ Abs(v[i][2]) <= Bound

AllForm(n, x) == TLCEval([k \in 1..n |-> x])
Mixed(n, k) == TLCEval([j \in 1..n |-> IF j-1 < k THEN "A" ELSE IF j-1 > k THEN "B" ELSE "C"])

\* calls that change the form only
Reform(c, name, k, f) ==
  [log |-> [op |-> name, k |-> k, form |-> f, n2 |-> IF c.exact THEN Norm2(c.psi) ELSE 0],
   psi |-> c.psi, L |-> c.L, form |-> f, exact |-> FALSE]
\* orthogonalise the sites fr..to-1 only: a scalar is only removed at the end of the chain
Part(c, name) ==
  LET fr == H(c, 1) % c.L  to == fr + 1 + (H(c, 2) % (c.L - fr))
      whole == fr = 0 /\ to = c.L
      drops == IF name = "lpart" THEN to = c.L ELSE fr = 0
      f == TLCEval([j \in 1..c.L |-> IF j > fr /\ j <= to THEN (IF name = "lpart" THEN "A" ELSE "B") ELSE "N"]) IN
  [log |-> [op |-> name, fr |-> fr, to |-> to, whole |-> whole, form |-> f, n2 |-> IF c.exact THEN Norm2(c.psi) ELSE 0, drops |-> drops],
   psi |-> c.psi, L |-> c.L, form |-> f, exact |-> c.exact /\ ~drops]
\* calls that measure: they may change the gauge, never the ray
Measure(c, rec) == [log |-> rec, psi |-> c.psi, L |-> c.L, form |-> AllForm(c.L, "N"), exact |-> FALSE]
\* calls that change the ray
Edit(c, rec, v, n) == [log |-> rec @@ [psi |-> v], psi |-> v, L |-> n, form |-> AllForm(n, "N"), exact |-> FALSE]
Renew(c, name) == [log |-> [op |-> name], psi |-> c.psi, L |-> c.L, form |-> AllForm(c.L, "N"), exact |-> FALSE]

One(c, name) ==
  LET k == Site(c)  O == TLCEval(HermOn(c, 1)) IN
  Measure(c, [op |-> name, k |-> k, O |-> O, num |-> ExpBlock(c.psi, c.d, c.L, k, 1, O), den |-> Norm2(c.psi)])
Several(c) ==
  LET k == Site(c)  Os == TLCEval(<<HermOn(c, 1), RndHerm(c.s, Base(c)+50, c.d, 1)>>) IN
  Measure(c, [op |-> "Es", k |-> k, O |-> Os,
              num |-> TLCEval([i \in 1..2 |-> ExpBlock(c.psi, c.d, c.L, k, 1, Os[i])]), den |-> Norm2(c.psi)])
Width(c) == LET w == 1 + (H(c, 3) % Min2(3, c.L)) IN IF Pow(c.d, w) > 9 THEN Min2(2, c.L) ELSE w
Start(c, w) == H(c, 4) % (c.L - w + 1)
BlockE(c) ==
  LET w == Width(c)  i == Start(c, w)  O == TLCEval(HermOn(c, w)) IN
  Measure(c, [op |-> "Ek", i |-> i, w |-> w, O |-> O, num |-> ExpBlock(c.psi, c.d, c.L, i, w, O), den |-> Norm2(c.psi)])
StringE(c) ==
  LET w == Width(c)  i == Start(c, w)
      Os == TLCEval([j \in 1..w |-> RndHerm(c.s, Base(c) + 40*j, c.d, 1)])
      O == TLCEval(FoldLeft(LAMBDA a, b : MKron(a, b), <<<<C1>>>>, Os)) IN
  Measure(c, [op |-> "EkS", i |-> i, w |-> w, O |-> Os, num |-> ExpBlock(c.psi, c.d, c.L, i, w, O), den |-> Norm2(c.psi)])
Density(c) ==
  LET w == Width(c)  i == Start(c, w) IN
  Measure(c, [op |-> "rho", i |-> i, w |-> w, M |-> Rho(c.psi, c.d, c.L, i, w), den |-> Norm2(c.psi)])

MapSite(c, name) ==
  LET k == Site(c)
      O1 == TLCEval(AnyOn(c))
      v1 == Primitive(ApplyBlock(c.psi, c.d, c.L, k, 1, O1))
      ok == Small(v1)
      O == IF ok THEN O1 ELSE PermOn(c.d)
      v == IF ok THEN v1 ELSE ApplyBlock(c.psi, c.d, c.L, k, 1, O)
  IN Edit(c, [op |-> name, k |-> k, O |-> O], v, c.L)
TwoSite(c) ==
  LET i == H(c, 1) % (c.L - 1)
      j == i + 1 + (H(c, 2) % (c.L - 1 - i))
      U1 == TLCEval(Gate2(c))
      v1 == Primitive(ApplyPair(c.psi, c.L, i, j, U1))
      ok == Small(v1)
      U == IF ok THEN U1 ELSE Ent(H(c, 13))
      v == IF ok THEN v1 ELSE ApplyPair(c.psi, c.L, i, j, U)
  IN Edit(c, [op |-> "gate", i |-> i, j |-> j, which |-> IF H(c, 7) % 2 = 0 THEN "l" ELSE "r", U |-> U,
              s2 |-> ScalarOf(MMul(U, MDag(U))),
              \* bound on the bonds written: none, or one that any chain of this length satisfies; and a tight one
              bound |-> IF H(c, 8) % 3 = 0 THEN Pow(2, c.L \div 2) ELSE IF H(c, 8) % 3 = 1 THEN Pow(2, c.L) ELSE 0,
              tight |-> 1 + (H(c, 9) % 2), swaps |-> H(c, 10) % 2 = 0], v, c.L)
Select(c) ==
  LET k == Site(c)
      b0 == H(c, 2) % c.d
      ok == {b \in 0..c.d-1 : ~IsZeroVec(Project(c.psi, c.d, c.L, k, b))}   \* levels the site can be found in
      b == IF b0 \in ok THEN b0 ELSE CHOOSE x \in ok : TRUE
  IN Edit(c, [op |-> "post", k |-> k, b |-> b], Primitive(Project(c.psi, c.d, c.L, k, b)), c.L - 1)

KindSeq == <<"lcan", "rcan", "lcan0", "rcan0", "mcan", "lorth", "rorth", "morth", "E", "E_", "Es", "Ek", "EkS", "rho",
             "set", "apply", "gate", "post", "copy", "pack", "lpart", "rpart">>
AllKinds == {KindSeq[i] : i \in 1..Len(KindSeq)}

Call(kind, c) ==
  CASE kind \in {"lcan", "lcan0", "lorth"} -> Reform(c, kind, 0, AllForm(c.L, "A"))
    [] kind \in {"rcan", "rcan0", "rorth"} -> Reform(c, kind, 0, AllForm(c.L, "B"))
    [] kind \in {"mcan", "morth"} -> Reform(c, kind, Site(c), Mixed(c.L, Site(c)))
    [] kind \in {"lpart", "rpart"} -> Part(c, kind)
    [] kind \in {"E", "E_"} -> One(c, kind)
    [] kind = "Es" -> Several(c)
    [] kind = "Ek" -> BlockE(c)
    [] kind = "EkS" -> StringE(c)
    [] kind = "rho" -> Density(c)
    [] kind \in {"set", "apply"} -> MapSite(c, kind)
    [] kind = "gate" -> TwoSite(c)
    [] kind = "post" -> Select(c)
    [] kind \in {"copy", "pack"} -> Renew(c, kind)

(* ------------------------------ the machine ----------------------------- *)
Now == [s |-> seed, n |-> Len(hist), d |-> d, L |-> L, psi |-> psi, exact |-> exact]
Possible(kind) == /\ kind \in Kinds
                  /\ (kind = "gate" => d = 2 /\ L >= 2)
                  /\ (kind = "post" => L >= 2)
Do(kind) ==
  /\ Len(hist) < Depth
  /\ Possible(kind)
  /\ Branch \/ LET en == SelectSeq(KindSeq, Possible) IN en[1 + (Rnd(seed, 60000 + 13*Len(hist)) % Len(en))] = kind
  /\ \E c \in {Now} : \E r \in {TLCEval(Call(kind, c))} :
       /\ psi' = r.psi /\ L' = r.L /\ form' = r.form /\ exact' = r.exact
       /\ hist' = Append(hist, r.log)
  /\ UNCHANGED <<seed, d, init>>

\* one named action per call, so that coverage counts them
LeftCanonicalise == Do("lcan")
RightCanonicalise == Do("rcan")
LeftNoSweepBack == Do("lcan0")
RightNoSweepBack == Do("rcan0")
MixedCanonicalise == Do("mcan")
LeftOrthogonalise == Do("lorth")
RightOrthogonalise == Do("rorth")
MixedOrthogonalise == Do("morth")
OrthogonaliseSome == Do("lpart") \/ Do("rpart")
ExpectOne == Do("E") \/ Do("E_") \/ Do("Es")
ExpectBlock == Do("Ek") \/ Do("EkS")
ReducedDensity == Do("rho")
AssignSite == Do("set")
ApplyOne == Do("apply")
ApplyGate == Do("gate")
PostSelect == Do("post")
Copy == Do("copy")
PackUnpack == Do("pack")
Next == \/ LeftCanonicalise
        \/ RightCanonicalise
        \/ LeftNoSweepBack
        \/ RightNoSweepBack
        \/ MixedCanonicalise
        \/ LeftOrthogonalise
        \/ RightOrthogonalise
        \/ MixedOrthogonalise
        \/ OrthogonaliseSome
        \/ ExpectOne
        \/ ExpectBlock
        \/ ReducedDensity
        \/ AssignSite
        \/ ApplyOne
        \/ ApplyGate
        \/ PostSelect
        \/ Copy
        \/ PackUnpack

InitOf(s) ==
  LET dd == IF Rnd(s, 1) % 4 = 0 THEN 3 ELSE 2
      mL == IF dd = 3 THEN Min2(MaxL, 4) ELSE MaxL
      one == Rnd(s, 71) % 19 = 0
      LL == IF one THEN 1 ELSE 2 + (Rnd(s, 2) % (mL - 1))
      fam == IF one THEN "product" ELSE Pick(s, 3, Fams)
      As == TLCEval(Chain(fam, s, dd, LL, MaxD, 1))
  IN [d |-> dd, L |-> LL, fam |-> fam, As |-> As, v |-> TLCEval(Dense(As))]

Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
             /\ ~IsZeroVec(c.v) /\ (Small(c.v) \/ c.fam = "skew")
             /\ seed = s /\ d = c.d /\ L = c.L /\ psi = c.v
             /\ form = [k \in 1..c.L |-> "N"] /\ exact = TRUE
             /\ init = [fam |-> c.fam, tensors |-> c.As, psi |-> c.v, d |-> c.d]
             /\ hist = <<>>
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
NonZero == ~IsZeroVec(psi)
TypeOK == Len(psi) = Pow(d, L) /\ Len(form) = L /\ Len(hist) <= Depth
\* every value a measurement is to return is a legal expectation value
LastLegal == hist # <<>> =>
  LET h == hist[Len(hist)] IN
  CASE h.op = "rho" -> /\ MTr(h.M) = <<h.den, 0>> /\ IsHermitian(h.M)
                       /\ \A i \in 1..Len(h.M) : h.M[i][i][1] >= 0
    [] h.op \in {"E", "E_", "Ek"} -> IsHermitian(h.O) /\ (h.O = MId(Len(h.O)) => h.num = h.den)
    [] h.op = "gate" -> h.s2 > 0
    [] OTHER -> TRUE
\* only edits move the ray
Edits == {"set", "apply", "gate", "post"}
MeasureFrame == [][hist' # hist /\ hist'[Len(hist')].op \notin Edits => psi' = psi /\ L' = L]_vars
\* a centre stands between left and right isometries
FormShape == \A i, j \in 1..L : i < j => ~(form[i] = "B" /\ form[j] \in {"A", "C"}) /\ ~(form[i] = "C" /\ form[j] = "A")
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist, psi |-> psi])>>)
=============================================================================
