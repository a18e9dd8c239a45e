-------------------------------- MODULE Ham ---------------------------------
(***************************************************************************)
(* Spin-1/2 chain Hamiltonians given by Pauli strings.  f[a] multiplies    *)
(* sigma_a on every site, j[a][b] multiplies sigma_a(i) sigma_b(i+1) on    *)
(* every bond.  An object answers requests for its representations, in any *)
(* order and for any lengths; a request does not change it.                *)
(*                                                                         *)
(* Checked here: the list of two-site terms (fields shared between the two *)
(* bonds of a site, whole at the ends) and the matrix product operator     *)
(* both assemble to the operator defined by the sum of its strings.        *)
(***************************************************************************)
EXTENDS Flat, Json
CONSTANTS SeedLo, SeedHi, Depth, MaxL
VARIABLES seed, coef, hist
vars == <<seed, coef, hist>>

P == <<X, Y, Z>>
Sum3(F(_)) == MAdd(MAdd(F(1), F(2)), F(3))
R(n) == <<n, 0>>
\* operator A on w sites starting at site i (from 0) of L
Embed(A, i, w, L) == MKron(MKron(MId(Pow(2, i)), A), MId(Pow(2, L-i-w)))
SumM(F(_), lo, hi) == FoldLeft(LAMBDA a, k : MAdd(a, F(k)), F(lo), [k \in 1..(hi-lo) |-> lo+k])

Bond(c) == Sum3(LAMBDA a : Sum3(LAMBDA b : MScale(R(c.j[a][b]), MKron(P[a], P[b]))))
Field(c) == Sum3(LAMBDA a : MScale(R(c.f[a]), P[a]))
\* the definition
Full(c, L) ==
  LET B == TLCEval(Bond(c))  F == TLCEval(Field(c)) IN
  MAdd(SumM(LAMBDA i : Embed(B, i, 2, L), 0, L-2), SumM(LAMBDA i : Embed(F, i, 1, L), 0, L-1))
\* twice the two-site terms
Terms2(c, L) ==
  LET B == TLCEval(MScale(R(2), Bond(c)))  F == TLCEval(Field(c))
      lf == MKron(F, I2)  rf == MKron(I2, F)
  IN TLCEval([i \in 1..(L-1) |-> MAdd(B, MAdd(MScale(R(IF i = 1 THEN 2 ELSE 1), lf), MScale(R(IF i = L-1 THEN 2 ELSE 1), rf)))])
Assemble(ts, L) == SumM(LAMBDA i : Embed(ts[i+1], i, 2, L), 0, L-2)
\* the single two-site matrix with both fields whole
Local(c) == LET F == Field(c) IN MAdd(Bond(c), MAdd(MKron(F, I2), MKron(I2, F)))
\* 5-state automaton, for diagonal couplings
Heis(c) == \A a, b \in 1..3 : a # b => c.j[a][b] = 0
Zero2 == MZero(2, 2)
W(c) == TLCEval([a \in 1..5 |-> TLCEval([b \in 1..5 |->
   IF (a = 1 /\ b = 1) \/ (a = 5 /\ b = 5) THEN I2
   ELSE IF a = 1 /\ b \in 2..4 THEN P[5-b]
   ELSE IF a \in 2..4 /\ b = 5 THEN MScale(R(c.j[5-a][5-a]), P[5-a])
   ELSE IF a = 1 /\ b = 5 THEN Field(c) ELSE Zero2])])
RECURSIVE MpoRow(_, _)
\* the row vector of operators after L sites
MpoRow(w, L) == IF L = 1 THEN w[1]
  ELSE LET r == TLCEval(MpoRow(w, L-1)) IN
       TLCEval([b \in 1..5 |-> FoldLeft(LAMBDA acc, a : IF w[a][b] = Zero2 THEN acc ELSE MAdd(acc, MKron(r[a], w[a][b])), MZero(Pow(2, L), Pow(2, L)), <<1, 2, 3, 4, 5>>)])
MpoFull(c, L) == MpoRow(W(c), L)[5]

Coef(s) ==
  LET heis == Rnd(s, 5) % 2 = 0
      some(i) == Rnd(s, 70 + i) % 3 # 0
      \* couplings are integers over u: either all of order one, or some of
      \* order one beside others ten thousand times smaller
      mixed == Rnd(s, 6) % 3 = 0
      size(i) == IF mixed /\ Rnd(s, 90 + i) % 2 = 0 THEN 5000 ELSE 1
  IN [u |-> IF mixed THEN 10000 ELSE 1,
      f |-> TLCEval([a \in 1..3 |-> IF some(a) THEN size(a) * RndIn(s, 10 + a, -3, 3) ELSE 0]),
      j |-> TLCEval([a \in 1..3 |-> TLCEval([b \in 1..3 |-> IF heis /\ a # b THEN 0
                        ELSE IF some(10*a + b) THEN size(10*a + b) * RndIn(s, 20 + 10*a + b, -3, 3) ELSE 0])])]
(* lists of k-site terms on chains of any local dimension: term i starts at site i *)
EmbedD(A, i, w, L, d) == MKron(MKron(MId(Pow(d, i)), A), MId(Pow(d, L-i-w)))
Listed(s) ==
  LET d == RndIn(s, 3, 2, 4)
      L == IF d = 2 THEN RndIn(s, 4, 1, 4) ELSE IF d = 3 THEN RndIn(s, 4, 1, 3) ELSE RndIn(s, 4, 1, 2)
      k == RndIn(s, 5, 1, L)
      ts == TLCEval([i \in 1..(L-k+1) |-> RndM(s, 100*i, Pow(d, k), Pow(d, k), 2)])
      \* a size only: d^k at most about a thousand
      dd == RndIn(s, 6, 2, 10)
      kk == RndIn(s, 7, 1, IF dd = 2 THEN 9 ELSE IF dd = 3 THEN 6 ELSE IF dd <= 5 THEN 4 ELSE 3)
  IN [op |-> "listed", L |-> L, d |-> d, k |-> k, ts |-> ts, dd |-> dd, kk |-> kk, size |-> Pow(dd, kk),
      m |-> TLCEval(SumM(LAMBDA i : EmbedD(ts[i+1], i, k, L, d), 0, L-k))]
Kinds == <<"full", "terms", "mpo", "local", "back", "given", "listed">>
Log(kind, c, L) ==
  CASE kind = "listed" -> Listed(seed + 7919*Len(hist))
    [] kind = "full" -> [op |-> kind, L |-> L, m |-> Full(c, L), ts |-> <<>>]
    [] kind = "terms" -> [op |-> kind, L |-> L, m |-> Full(c, L), ts |-> Terms2(c, L)]
    [] kind = "mpo" -> [op |-> kind, L |-> L, m |-> Full(c, L), ts |-> <<>>]
    [] kind = "local" -> [op |-> kind, L |-> 2, m |-> Local(c), ts |-> <<>>]
    [] kind = "back" -> [op |-> kind, L |-> 2, m |-> Local(c), ts |-> <<>>]
    [] kind = "given" -> [op |-> kind, L |-> L, m |-> Full(c, L), ts |-> Terms2(c, L)]
Ask(kind) ==
  /\ Len(hist) < Depth
  /\ kind = Kinds[1 + (Rnd(seed, 40 + Len(hist)) % Len(Kinds))]
  /\ kind = "mpo" => Heis(coef)
  /\ \E h \in {TLCEval(Log(kind, coef, 2 + (Rnd(seed, 50 + Len(hist)) % (MaxL-1))))} : hist' = Append(hist, h)
  /\ UNCHANGED <<seed, coef>>
\* an operator request that the form does not cover is skipped
Skip ==
  /\ Len(hist) < Depth
  /\ Kinds[1 + (Rnd(seed, 40 + Len(hist)) % Len(Kinds))] = "mpo" /\ ~Heis(coef)
  /\ hist' = Append(hist, [op |-> "nompo", L |-> 2, m |-> <<>>, ts |-> <<>>])
  /\ UNCHANGED <<seed, coef>>
Next == \/ Ask("full")
        \/ Ask("terms")
        \/ Ask("mpo")
        \/ Ask("local")
        \/ Ask("back")
        \/ Ask("given")
        \/ Ask("listed")
        \/ Skip
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(Coef(s))} : seed = s /\ coef = c /\ hist = <<>>
Spec == Init /\ [][Next]_vars

\* checked once per Hamiltonian, for every length
SameOperator == hist = <<>> => \A c \in {coef} : \A L \in 2..MaxL :
  LET F == TLCEval(Full(c, L)) IN
  /\ Assemble(Terms2(c, L), L) = MScale(R(2), F)
  /\ Heis(c) => MpoFull(c, L) = F
  /\ IsHermitian(F) /\ MTr(F) = C0
\* sigma_a (x) sigma_b components recover the coefficients
Comp(M, A, B) == MTr(MMul(MKron(A, B), M))
Recovers == hist = <<>> => \A c \in {coef} : \A M \in {TLCEval(Local(c))} :
  /\ \A a, b \in 1..3 : Comp(M, P[a], P[b]) = R(4*c.j[a][b])
  /\ \A a \in 1..3 : Comp(M, P[a], I2) = R(4*c.f[a]) /\ Comp(M, I2, P[a]) = R(4*c.f[a])
\* each term weighs the rest of the chain in the trace
ListedTrace == Len(hist) > 0 => \A h \in {hist[Len(hist)]} : h.op = "listed" =>
  MTr(h.m) = CScale(Pow(h.d, h.L - h.k), CSumSeq(TLCEval([i \in 1..Len(h.ts) |-> MTr(h.ts[i])])))
Unchanging == [][coef' = coef]_vars
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, coef |-> coef, hist |-> hist])>>)
=============================================================================
