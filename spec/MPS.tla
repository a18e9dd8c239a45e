-------------------------------- MODULE MPS --------------------------------
(***************************************************************************)
(* What a finite matrix product state denotes.  A site tensor is           *)
(* A[s][a][b] (physical index first, then left and right bond), a chain is *)
(* a sequence of site tensors, and the state it denotes is the vector of   *)
(* its d^L amplitudes, site 0 most significant.  Sites are numbered from 0 *)
(* as in the library's interface.                                          *)
(***************************************************************************)
EXTENDS Gauss

\* row vector times matrix
RowMul(v_, M_) == LET v == TLCEval(v_)  M == TLCEval(M_) IN
                  TLCEval([b \in 1..Cols(M) |-> CSumSeq(TLCEval([a \in 1..Len(v) |-> CMul(v[a], M[a][b])]))])

RECURSIVE RowsOf(_, _)
\* the bond vectors of all prefixes of length k
RowsOf(As, k) == IF k = 0 THEN << <<C1>> >>
                 ELSE LET prev == TLCEval(RowsOf(As, k-1))
                          d == Len(As[k])
                      IN TLCEval([n \in 1..(Len(prev)*d) |-> RowMul(prev[1 + ((n-1) \div d)], As[k][1 + ((n-1) % d)])])

Dense(As) == LET r == TLCEval(RowsOf(As, Len(As))) IN TLCEval([n \in 1..Len(r) |-> r[n][1]])

(* ------------------------- dense operations ----------------------------- *)
\* digit of basis label n (from 1) at site k (from 0)
Dig(n, d, L, k) == ((n-1) \div Pow(d, L-1-k)) % d
\* label n with the block of w digits from site k replaced by value t
SetBlock(n, d, L, k, w, t) == LET q == Pow(d, L-k-w)  m == Pow(d, w)
                              IN n + (t - (((n-1) \div q) % m)) * q
Block(n, d, L, k, w) == ((n-1) \div Pow(d, L-k-w)) % Pow(d, w)

\* operator O (d^w x d^w) on the w sites starting at k
ApplyBlock(psi_, d, L, k, w, O_) ==
  LET psi == TLCEval(psi_)  O == TLCEval(O_)  m == Pow(d, w) IN
  TLCEval([n \in 1..Len(psi) |->
     LET r == Block(n, d, L, k, w) + 1 IN
     CSumSeq(TLCEval([t \in 1..m |-> IF CZero(O[r][t]) THEN C0
                                     ELSE CMul(O[r][t], psi[SetBlock(n, d, L, k, w, t-1)])]))])

\* 4x4 operator (d=2) on sites i < j, first factor on i
ApplyPair(psi_, L, i, j, O_) ==
  LET psi == TLCEval(psi_)  O == TLCEval(O_) IN
  TLCEval([n \in 1..Len(psi) |->
     LET r == 2*Dig(n, 2, L, i) + Dig(n, 2, L, j) + 1 IN
     CSumSeq(TLCEval([t \in 1..4 |->
        IF CZero(O[r][t]) THEN C0
        ELSE CMul(O[r][t], psi[SetBlock(SetBlock(n, 2, L, i, 1, (t-1) \div 2), 2, L, j, 1, (t-1) % 2)])]))])

\* keep the amplitudes with digit b at site k, dropping that site
Project(psi, d, L, k, b) ==
  LET q == Pow(d, L-1-k) IN
  TLCEval([n \in 1..Pow(d, L-1) |-> psi[((n-1) \div q)*q*d + b*q + ((n-1) % q) + 1]])

\* unnormalised reduced density matrix of the block of w sites from k
Rho(psi_, d, L, k, w) ==
  LET psi == TLCEval(psi_)
      m == Pow(d, w)   q == Pow(d, L-k-w)   h == Pow(d, k)
      At(a, r, c) == psi[(a*m + r)*q + c + 1]
  IN Mat(m, m, LAMBDA r, s :
       CSumSeq(TLCEval([e \in 1..(h*q) |->
          CMul(At((e-1) \div q, r-1, (e-1) % q), CConj(At((e-1) \div q, s-1, (e-1) % q)))])))

\* <psi|O|psi> for a hermitian O on a block: a real integer
ExpBlock(psi, d, L, k, w, O) == Inner(psi, ApplyBlock(psi, d, L, k, w, O))[1]

\* matrix of the cut after the first k sites: rows = prefixes
CutMatrix(psi, d, L, k) == LET q == Pow(d, L-k) IN Mat(Pow(d, k), q, LAMBDA r, c : psi[(r-1)*q + c])

(* ----------------- rank of an integer matrix modulo a prime ------------- *)
\* In GF(p), p = 1 mod 4, i becomes a square root of -1.  The rank modulo p
\* never exceeds the true rank.
PR == 10009
IR == 3303
ASSUME (IR * IR + 1) % PR = 0
ToP(c) == LET a == c[1] % PR  b == c[2] % PR IN (a + b * IR) % PR
RECURSIVE PowP(_, _)
PowP(b, e) == IF e = 0 THEN 1 ELSE LET h == PowP(b, e \div 2) IN IF e % 2 = 0 THEN (h*h) % PR ELSE (((h*h) % PR) * b) % PR
InvP(a) == PowP(a, PR-2)
RECURSIVE RankRec(_, _)
RankRec(M, c) == \* M: sequence of rows over GF(p); eliminate from column c on
  IF M = <<>> \/ c > Len(M[1]) THEN 0
  ELSE LET piv == {r \in 1..Len(M) : M[r][c] # 0} IN
       IF piv = {} THEN RankRec(M, c+1)
       ELSE LET p == CHOOSE r \in piv : \A r2 \in piv : r <= r2
                row == M[p]
                f == InvP(row[c])
                rest == TLCEval([r \in 1..(Len(M)-1) |->
                          LET s == IF r < p THEN M[r] ELSE M[r+1]
                              g == (s[c] * f) % PR
                          IN IF g = 0 THEN s ELSE TLCEval([j \in 1..Len(s) |-> (s[j] + (PR - g) * row[j]) % PR])])
            IN 1 + RankRec(rest, c+1)
Rank(M) == RankRec(Mat(Len(M), Cols(M), LAMBDA i, j : ToP(M[i][j])), 1)
SchmidtRank(psi, d, L, k) == Rank(CutMatrix(psi, d, L, k))

\* Gram matrix of the smaller side of the cut after k sites: its eigenvalues,
\* divided by the squared norm, are the Schmidt weights of that cut
Gram(psi, d, L, k) == IF 2*k <= L THEN Rho(psi, d, L, 0, k) ELSE Rho(psi, d, L, k, L-k)
Grams(psi, d, L) == TLCEval([k \in 1..(L+1) |-> Gram(psi, d, L, k-1)])
Ranks(psi, d, L) == TLCEval([k \in 1..(L+1) |-> Rank(Gram(psi, d, L, k-1))])

(* ------------------------- families of states --------------------------- *)
\* a random chain with bonds bs (bs[1] = bs[L+1] = 1), entries |re|,|im| <= m
RndChain(s, d, L, bs, m) ==
  TLCEval([k \in 1..L |-> TLCEval([p \in 1..d |-> RndM(s, 1000*k + 100*p, bs[k], bs[k+1], m)])])
RndRealChain(s, d, L, bs, m) ==
  TLCEval([k \in 1..L |-> TLCEval([p \in 1..d |->
     Mat(bs[k], bs[k+1], LAMBDA a, b : <<RndIn(s, 1000*k + 100*p + 10*a + b, -m, m), 0>>)])])
RndBonds(s, L, D) == TLCEval([k \in 1..(L+1) |-> IF k = 1 \/ k = L+1 THEN 1 ELSE RndIn(s, 500+k, 1, D)])
FlatBonds(L, D) == TLCEval([k \in 1..(L+1) |-> IF k = 1 \/ k = L+1 THEN 1 ELSE D])
StdBonds(d, L, D) == TLCEval([k \in 1..(L+1) |-> Min2(D, Min2(Pow(d, k-1), Pow(d, L+1-k)))])

GHZChain(s, d, L) == LET w == [p \in 1..d |-> IF s < 2 \/ s % 2 = 0 THEN C1 ELSE <<RndIn(s, 40+p, 1, 3), 0>>] IN
  TLCEval([k \in 1..L |-> TLCEval([p \in 1..d |->
     Mat(IF k = 1 THEN 1 ELSE d, IF k = L THEN 1 ELSE d,
         LAMBDA a, b : IF (k = 1 \/ a = p) /\ (k = L \/ b = p) THEN (IF k = 1 THEN w[p] ELSE C1) ELSE C0)])])
\* linear cluster state: amplitude product of (-1)^(n_k n_{k+1})
ClusterChain(L) ==
  TLCEval([k \in 1..L |-> TLCEval([p \in 1..2 |->
     Mat(IF k = 1 THEN 1 ELSE 2, IF k = L THEN 1 ELSE 2,
         LAMBDA a, b : IF k # L /\ b # p THEN C0
                       ELSE IF k # 1 /\ a = 2 /\ p = 2 THEN <<-1, 0>> ELSE C1)])])
\* neighbouring pairs (0,1), (2,3), ... maximally entangled, odd leftover in |0>
PairChain(d, L) ==
  TLCEval([k \in 1..L |-> TLCEval([p \in 1..d |->
     LET first == k % 2 = 1 /\ k < L   second == k % 2 = 0 IN
     IF first THEN Mat(1, d, LAMBDA a, b : IF b = p THEN C1 ELSE C0)
     ELSE IF second THEN Mat(d, 1, LAMBDA a, b : IF a = p THEN C1 ELSE C0)
     ELSE Mat(1, 1, LAMBDA a, b : IF p = 1 THEN C1 ELSE C0)])])
WChain(d, L) ==
  TLCEval([k \in 1..L |-> TLCEval([p \in 1..d |->
     LET F(a, b) == IF p = 1 THEN (IF a = b THEN C1 ELSE C0)
                    ELSE IF p = 2 THEN (IF a = 1 /\ b = 2 THEN C1 ELSE C0) ELSE C0
     IN IF k = 1 THEN Mat(1, IF L = 1 THEN 1 ELSE 2, LAMBDA a, b : F(1, b))
        ELSE IF k = L THEN Mat(2, 1, LAMBDA a, b : F(a, 2))
        ELSE Mat(2, 2, F)])])
\* the same chain with every inner bond doubled by a redundant copy (rank deficient)
Redundant(As) == LET L == Len(As) IN
  TLCEval([k \in 1..L |-> TLCEval([p \in 1..Len(As[k]) |->
     LET M == As[k][p]  dl == Len(M)  dr == Cols(M) IN
     Mat(IF k = 1 THEN 1 ELSE 2*dl, IF k = L THEN 1 ELSE 2*dr,
         LAMBDA a, b : IF k # 1 /\ a > dl THEN (IF k = L \/ b > dr THEN M[a-dl][IF k = L THEN b ELSE b-dr] ELSE C0)
                       ELSE IF k # L /\ b > dr THEN (IF k = 1 THEN M[a][b-dr] ELSE C0) ELSE M[a][b])])])
\* GHZ-like with one tiny branch: Schmidt weights of order 1/N^2
SkewChain(s, d, L) == LET N == Pick(s, 41, <<30, 100, 300, 1000, 4000, 15000>>)  g == GHZChain(1, d, L) IN
  [k \in 1..L |-> [p \in 1..d |-> IF k = 1 THEN MScale(IF p = 1 THEN <<N, 0>> ELSE C1, g[1][p])
                                  ELSE IF k = 2 /\ p = 2 THEN MScale(<<0, 1>>, g[k][p]) ELSE g[k][p]]]
ProductChain(s, d, L, m) == RndChain(s, d, L, FlatBonds(L, 1), m)

Families == <<"random", "randomD", "real", "std", "ghz", "cluster", "pairs", "w", "redundant", "product">>
SkewFamily == <<"skew">>
Chain(fam, s, d, L, D, m) ==
  CASE fam = "random"    -> RndChain(s, d, L, RndBonds(s, L, D), m)
    [] fam = "randomD"   -> RndChain(s, d, L, FlatBonds(L, D), m)
    [] fam = "real"      -> RndRealChain(s, d, L, RndBonds(s, L, D), m)
    [] fam = "std"       -> RndChain(s, d, L, StdBonds(d, L, D), m)
    [] fam = "ghz"       -> GHZChain(s, d, L)
    [] fam = "cluster"   -> IF d = 2 THEN ClusterChain(L) ELSE PairChain(d, L)
    [] fam = "pairs"     -> PairChain(d, L)
    [] fam = "w"         -> WChain(d, L)
    [] fam = "redundant" -> Redundant(RndChain(s, d, L, RndBonds(s, L, 2), m))
    [] fam = "skew"      -> SkewChain(s, d, L)
    [] fam = "product"   -> ProductChain(s, d, L, m)
Shapes(As) == TLCEval([k \in 1..Len(As) |-> <<Len(As[k]), Len(As[k][1]), Cols(As[k][1])>>])
=============================================================================
