------------------------------- MODULE Uniform -------------------------------
(***************************************************************************)
(* Uniform infinite chains.  A state is the class of all tensors           *)
(*      c * S A_s S^-1        (S invertible, c a nonzero number)           *)
(* of an injective tensor A.  The model carries one exact representative   *)
(* of each of the (tensor) factors of the state: integer matrices A_s with *)
(*      sum_s A_s r A_s^* = N r      sum_s A_s^* l A_s = N l               *)
(* l and r exact positive matrices.  Gauge moves, scalings and the         *)
(* canonicalisations of the implementation keep the class, so every local  *)
(* expectation value stays the same rational number for ever.              *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth, Kinds
KindsAll == <<"quat", "quat", "latin", "unital", "quat", "prod">>
VARIABLES seed, fs, form, hist, ini
vars == <<seed, fs, form, hist, ini>>

(* ------------------------------ linear algebra --------------------------- *)
Det3(M) == M[1][1]*(M[2][2]*M[3][3] - M[2][3]*M[3][2])
         - M[1][2]*(M[2][1]*M[3][3] - M[2][3]*M[3][1])
         + M[1][3]*(M[2][1]*M[3][2] - M[2][2]*M[3][1])
Det(M) == IF Len(M) = 1 THEN M[1][1] ELSE IF Len(M) = 2 THEN M[1][1]*M[2][2] - M[1][2]*M[2][1] ELSE Det3(M)
DropAt(s, i) == [k \in 1..(Len(s)-1) |-> IF k < i THEN s[k] ELSE s[k+1]]
Cof(M, i, j) == LET n == Len(M) IN (IF (i+j) % 2 = 0 THEN 1 ELSE -1) * Det(TLCEval([a \in 1..(n-1) |-> DropAt(DropAt(M, i)[a], j)]))
\* a null vector of an integer matrix of rank n-1 (the row of cofactors with a nonzero entry)
NullR(M_) == LET M == TLCEval(M_)  n == Len(M)
                 Row(i) == TLCEval([j \in 1..n |-> Cof(M, i, j)])
                 R == TLCEval([i \in 1..n |-> Row(i)])
                 good == {i \in 1..n : \E j \in 1..n : R[i][j] # 0} IN
             IF good = {} THEN <<>>
             ELSE LET v == R[CHOOSE i \in good : \A k \in good : i <= k]
                      g == FoldLeft(LAMBDA a, b : Gcd(a, b), 0, v) IN TLCEval([j \in 1..n |-> v[j] \div g])

MSum(ms) == FoldLeft(MAdd, ms[1], Tail(ms))
LeftMap(A, l) == TLCEval(MSum(TLCEval([s \in 1..Len(A) |-> MMul(MDag(A[s]), MMul(l, A[s]))])))
RightMap(A, r) == TLCEval(MSum(TLCEval([s \in 1..Len(A) |-> MMul(A[s], MMul(r, MDag(A[s])))])))
RScale(n, M) == MScale(<<n, 0>>, M)

\* the hermitian fixed point of l -> sum A^* l A, eigenvalue N
Herm2(x) == <<<< <<x[1], 0>>, <<x[3], -x[4]>> >>, << <<x[3], x[4]>>, <<x[2], 0>> >>>>
Comp2(M) == <<M[1][1][1], M[2][2][1], M[2][1][1], M[2][1][2]>>
Unit4(k) == [j \in 1..4 |-> IF j = k THEN 1 ELSE 0]
Positive(v, n) == IF FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(v, 1, n)) < 0 THEN TLCEval([j \in 1..Len(v) |-> -v[j]]) ELSE v
SolveL2(A, N) ==
  LET cols == TLCEval([k \in 1..4 |-> Comp2(LeftMap(A, Herm2(Unit4(k))))])
      v == TLCEval(NullR([i \in 1..4 |-> [k \in 1..4 |-> cols[k][i] - (IF i = k THEN N ELSE 0)]])) IN
  IF v = <<>> THEN <<>> ELSE Herm2(Positive(v, 2))
SolveLDiag(A, N) ==
  LET D == Len(A[1])
      W == TLCEval([i \in 1..D |-> [j \in 1..D |-> FoldLeft(LAMBDA a, s : a + CAbs2(A[s][i][j]), 0, [s \in 1..Len(A) |-> s])]])
      v == TLCEval(NullR([j \in 1..D |-> [i \in 1..D |-> W[i][j] - (IF i = j THEN N ELSE 0)]])) IN
  IF v = <<>> THEN <<>> ELSE LET p == TLCEval(Positive(v, D)) IN Mat(D, D, LAMBDA a, b : IF a = b THEN <<p[a], 0>> ELSE C0)

(* ------------------------------- the tensors ----------------------------- *)
Phase(n) == <<C1, CI, <<-1, 0>>, <<0, -1>>>>[1 + (n % 4)]
Rn(s, i, n) == Rnd(s, i) % n
\* rows of [A_1 ... A_d]: a vector and an orthogonal one of equal norm
Quat(s) ==
  LET d == 2 + Rn(s, 1, 2)
      m == 2*d
      v == TLCEval([k \in 1..m |-> IF Rn(s, 9+k, 5) = 0 THEN C0 ELSE RndC(s, 10+k, 1 + Rn(s, 60+k, 5) \div 4)])
      sh == 1 + Rn(s, 2, m-1)                      \* pairing of positions
      P(k) == IF d = 3 /\ Rn(s, 2, 2) = 0 THEN (CASE k = 1 -> 5 [] k = 5 -> 1 [] k = 2 -> 4 [] k = 4 -> 2 [] k = 3 -> 6 [] k = 6 -> 3)
              ELSE IF Rn(s, 3, 3) = 0 THEN m+1-k ELSE IF k <= d THEN k+d ELSE k-d
      w == TLCEval([k \in 1..m |-> IF k < P(k) THEN CNeg(CConj(v[P(k)])) ELSE CConj(v[P(k)])])
      \* entry (row, col) of A_s is component 2(s-1)+col of the row vector
      A == TLCEval([t \in 1..d |-> << <<v[2*t-1], v[2*t]>>, <<w[2*t-1], w[2*t]>> >>]) IN
  [D |-> 2, A |-> A, N |-> Norm2(v)]
\* A_s has one entry in every row and column, the positions of different s disjoint
Latin(s) ==
  LET D == 2 + Rn(s, 1, 2)
      k0 == 1 + Rn(s, 2, 2)
      row == TLCEval([j \in 1..D |-> 1 + Rn(s, 3+j, 3)])
      Pm(i) == LET r == Rn(s, 20+i, 6) IN           \* a permutation of the moduli for each row
               IF D = 2 THEN (IF r % 2 = 0 THEN <<1, 2>> ELSE <<2, 1>>)
               ELSE <<<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>>>[r+1]
      A == TLCEval([t \in 1..D |-> Mat(D, D, LAMBDA i, j : IF j = 1 + ((i - 1 + t - 1) % D)
              THEN CMul(Phase(Rnd(s, 30 + 5*i + j)), <<row[Pm(i)[j]], 0>>) ELSE C0)]) IN
  [D |-> D, A |-> A, N |-> FoldLeft(LAMBDA a, b : a + b*b, 0, row)]
\* multiples of monomial unitaries: both fixed points are the identity
Unital(s) ==
  LET D == 2 + Rn(s, 1, 2)
      d == 2 + Rn(s, 2, 2)
      c == TLCEval([t \in 1..d |-> LET x == RndC(s, 40+t, 2) IN IF CZero(x) THEN C1 ELSE x])
      Pm(t) == LET r == Rn(s, 20+t, 6) IN
               IF D = 2 THEN (IF r % 2 = 0 THEN <<1, 2>> ELSE <<2, 1>>)
               ELSE <<<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>>>[r+1]
      A == TLCEval([t \in 1..d |-> Mat(D, D, LAMBDA i, j : IF j = Pm(t)[i] THEN CMul(c[t], Phase(Rnd(s, 50 + 7*t + i))) ELSE C0)]) IN
  [D |-> D, A |-> A, N |-> FoldLeft(LAMBDA a, x : a + CAbs2(x), 0, c)]
\* a product state
Prod1(s) ==
  LET d == 2 + Rn(s, 1, 2)
      c == TLCEval([t \in 1..d |-> RndC(s, 40+t, 2)])
      b == IF IsZeroVec(c) THEN [t \in 1..d |-> C1] ELSE c IN
  [D |-> 1, A |-> TLCEval([t \in 1..d |-> <<<<b[t]>>>>]), N |-> Norm2(b)]

Raw(k, s) == CASE k = "quat" -> Quat(s) [] k = "latin" -> Latin(s) [] k = "unital" -> Unital(s) [] k = "prod" -> Prod1(s)
\* products of three tensors span all matrices: the state is unique, the transfer matrix has a gap
Flatten(M) == TLCEval([n \in 1..(Len(M)*Len(M)) |-> M[1 + ((n-1) \div Len(M))][1 + ((n-1) % Len(M))]])
Words(A) == LET d == Len(A) IN
  TLCEval([n \in 1..(d*d*d) |-> LET a == 1 + ((n-1) % d)  b == 1 + (((n-1) \div d) % d)  e == 1 + ((n-1) \div (d*d)) IN
           Flatten(MMul(A[a], MMul(A[b], A[e])))])
Injective(A) == Rank(Words(A)) = Len(A[1])*Len(A[1])
SolveL(k, x) == IF k = "prod" THEN MId(1)
                ELSE IF k = "unital" THEN MId(x.D)
                ELSE IF k = "latin" THEN SolveLDiag(x.A, x.N) ELSE SolveL2(x.A, x.N)
Fac(k, s) == LET x == Raw(k, s)
                 l == IF Injective(x.A) THEN SolveL(k, x) ELSE <<>> IN
             IF l = <<>> THEN [ok |-> FALSE]
             ELSE [ok |-> TRUE, kind |-> k, D |-> x.D, d |-> Len(x.A), A |-> x.A, N |-> x.N, l |-> l, r |-> MId(x.D)]
RECURSIVE FirstFac(_, _, _)
FirstFac(k, s, t) == LET f == TLCEval(Fac(k, s + 1009*t)) IN
   IF f.ok THEN f ELSE IF t > 12 THEN TLCEval(Fac("prod", s)) ELSE FirstFac(k, s, t+1)

(* ------------------------ exact expectation values ----------------------- *)
Frac(n, m) == LET g == Gcd(Abs(n), m) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, m \div g>>
Pairing(f) == MTr(MMul(f.l, f.r))[1]
\* tr( l  sum_st O_ts  A_s r A_t^* )
E1(f, O) == LET d == f.d
                M == MSum(TLCEval([k \in 1..(d*d) |-> LET s == 1 + ((k-1) % d)  t == 1 + ((k-1) \div d) IN
                      MScale(O[t][s], MMul(f.A[s], MMul(f.r, MDag(f.A[t]))))])) IN
            Frac(MTr(MMul(f.l, M))[1], f.N * Pairing(f))
E2(f, h) == LET d == f.d
                AA == TLCEval([k \in 1..(d*d) |-> MMul(f.A[1 + ((k-1) \div d)], f.A[1 + ((k-1) % d)])])
                \* rows of h first: sum_s h_ts AA_s, then close with AA_t
                hA == TLCEval([t \in 1..(d*d) |-> MSum(TLCEval([s \in 1..(d*d) |-> MScale(h[t][s], AA[s])]))])
                M == MSum(TLCEval([t \in 1..(d*d) |-> MMul(hA[t], MMul(f.r, MDag(AA[t])))])) IN
            Frac(MTr(MMul(f.l, M))[1], f.N * f.N * Pairing(f))

\* the mixed transfer matrix of two tensors and its characteristic polynomial
\* (Newton's identities; the divisions are exact)
TMixed(A, B) == MSum(TLCEval([s \in 1..Len(A) |-> MKron(A[s], MConj(B[s]))]))
RECURSIVE PowersOf(_, _, _), PolyOf(_, _, _)
PowersOf(T, P, k) == IF k = 0 THEN <<>> ELSE <<MTr(P)>> \o PowersOf(T, TLCEval(MMul(P, T)), k-1)
CDivI(c, k) == <<c[1] \div k, c[2] \div k>>
PolyOf(p, n, cs) == IF Len(cs) = n+1 THEN cs
   ELSE LET k == Len(cs) IN
        PolyOf(p, n, Append(cs, CDivI(CNeg(CSumSeq(TLCEval([i \in 1..k |-> CMul(p[i], cs[k-i+1])]))), k)))
CharPoly(T) == LET n == Len(T) IN PolyOf(TLCEval(PowersOf(T, T, n)), n, <<C1>>)
RECURSIVE Partner(_, _, _, _)
Partner(f, k, s, t) == LET g == TLCEval(Fac(k, s + 2003*t)) IN
   IF g.ok /\ g.D = f.D /\ g.d = f.d THEN g ELSE IF t > 8 THEN f ELSE Partner(f, k, s, t+1)

(* ----------------------------- the transitions --------------------------- *)
H(n, i) == Rnd(seed, 7000 + 53*n + i)
\* shears and monomial gauges
GaugeOf(D, n) ==
  IF D = 1 THEN <<<<Phase(H(n, 1))>>>>
  ELSE LET i == 1 + (H(n, 2) % D)  j == 1 + ((i + (H(n, 3) % (D-1))) % D)  c == Phase(H(n, 4)) IN
       IF H(n, 5) % 3 = 0 THEN Mat(D, D, LAMBDA a, b : IF b = 1 + ((a + H(n, 6)) % D) THEN Phase(H(n, 7) + a) ELSE C0)
       ELSE Mat(D, D, LAMBDA a, b : IF a = b THEN C1 ELSE IF a = i /\ b = j THEN c ELSE C0)
InvGauge(S) == LET D == Len(S)  M == MDag(S) IN
   IF MMul(S, M) = MId(D) THEN M
   ELSE Mat(D, D, LAMBDA a, b : IF a = b THEN C1 ELSE CNeg(S[a][b]))
Gauged(f, S) == LET T == TLCEval(InvGauge(S)) IN
   [f EXCEPT !.A = TLCEval([s \in 1..f.d |-> MMul(S, MMul(f.A[s], T))]),
             !.r = MMul(S, MMul(f.r, MDag(S))), !.l = MMul(MDag(T), MMul(f.l, T))]
Scalings == << <<2, 0>>, <<0, 1>>, <<1, 1>>, <<-1, 0>>, <<1, -2>> >>
NShears == Cardinality({i \in 1..Len(hist) : hist[i].op = "gauge"})
NScale == Cardinality({i \in 1..Len(hist) : hist[i].op = "scale"})

\* what happens to the object, and the form it is then in
Gauge == LET n == Len(hist) IN
  /\ Len(hist) < Depth /\ NShears < 2
  /\ H(n, 0) % 9 \in {0, 1}
  /\ \E i \in {1 + (H(n, 8) % Len(fs))} : \E S \in {TLCEval(GaugeOf(fs[i].D, n))} :
       /\ fs' = [fs EXCEPT ![i] = TLCEval(Gauged(fs[i], S))]
       /\ hist' = Append(hist, [op |-> "gauge", f |-> i, S |-> S])
  /\ form' = "none" /\ UNCHANGED <<seed, ini>>
Scale == LET n == Len(hist) IN
  /\ Len(hist) < Depth /\ NScale < 1
  /\ H(n, 0) % 9 = 2
  /\ \E c \in {Pick(seed, 7050 + n, Scalings)} :
       /\ fs' = [fs EXCEPT ![1] = [fs[1] EXCEPT !.A = TLCEval([s \in 1..fs[1].d |-> MScale(c, fs[1].A[s])]), !.N = fs[1].N * CAbs2(c)]]
       /\ hist' = Append(hist, [op |-> "scale", by |-> c])
  /\ form' = "none" /\ UNCHANGED <<seed, ini>>
Canon == LET n == Len(hist) IN
  /\ Len(hist) < Depth
  /\ H(n, 0) % 9 \in {3, 4} \/ (H(n, 0) % 9 \in {0, 1} /\ NShears >= 2) \/ (H(n, 0) % 9 = 2 /\ NScale >= 1)
  /\ \E h \in {Pick(seed, 7060 + n, <<"l", "r", "m">>)} :
       /\ hist' = Append(hist, [op |-> "canon", hand |-> h])
       /\ form' = h
  /\ UNCHANGED <<seed, ini, fs>>
\* the weights and isometries are read off; the object keeps its state
Look == LET n == Len(hist) IN
  /\ Len(hist) < Depth
  /\ H(n, 0) % 9 \in {5, 6, 7, 8}
  /\ \E w \in {<<"vidal", "mixed", "measure", "measure", "overlap", "copy", "energy", "bare">>[1 + (H(n, 9) % 8)]} :
       hist' = Append(hist, [op |-> w, as |-> form])
  /\ form' = IF hist'[n+1].op = "vidal" THEN "none" ELSE form
  /\ UNCHANGED <<seed, ini, fs>>
Next == \/ Gauge
        \/ Scale
        \/ Canon
        \/ Look

Init == /\ seed \in SeedLo..SeedHi /\ form = "none" /\ hist = <<>>
        /\ \E k \in {Pick(seed, 1, Kinds)} : \E f \in {FirstFac(k, seed, 0)} :
             \* two factors now and then: bond dimension four
             \E two \in {f.D = 2 /\ f.d = 2 /\ Rn(seed, 2, 3) = 0} :
             \E g \in {IF two THEN FirstFac(Pick(seed, 3, <<"quat", "latin", "unital">>), seed + 77, 0) ELSE f} :
               fs = IF two /\ g.D = 2 /\ g.d = 2 THEN <<f, g>> ELSE <<f>>
        /\ \E O \in {TLCEval([i \in 1..Len(fs) |-> TLCEval([q \in 1..3 |-> RndHerm(seed, 300 + 50*i + 200*q, fs[i].d, 1)])])} :
           \E F \in {TLCEval([i \in 1..Len(fs) |-> RndHerm(seed, 1100 + 50*i, fs[i].d, 1)])} :
           \E G \in {TLCEval([i \in 1..Len(fs) |-> RndHerm(seed, 1300 + 50*i, fs[i].d, 1)])} :
           \E h \in {TLCEval([i \in 1..Len(fs) |-> RndHerm(seed, 2000 + 400*i, fs[i].d*fs[i].d, 1)])} :
           \E g \in {IF Len(fs) = 1 /\ fs[1].D <= 2 THEN Partner(fs[1], IF fs[1].D = 1 THEN "prod" ELSE Pick(seed, 4, <<"quat", "latin", "unital">>), seed + 5, 0)
                     ELSE fs[1]} :
             ini = [fs |-> fs, O |-> O, ov |-> [B |-> g.A, N |-> g.N, same |-> g = fs[1],
                      poly |-> IF Len(fs) = 1 /\ fs[1].D <= 2 THEN TLCEval(CharPoly(TMixed(fs[1].A, g.A))) ELSE <<>>], h |-> h, F |-> F, G |-> G,
                    E1 |-> TLCEval([i \in 1..Len(fs) |-> TLCEval([q \in 1..3 |-> E1(fs[i], O[i][q])])]),
                    E2 |-> TLCEval([i \in 1..Len(fs) |-> E2(fs[i], h[i])]),
                    \* rates of change under the sum of F over all sites:  < i [F, O] >
                    R1 |-> TLCEval([i \in 1..Len(fs) |-> TLCEval([q \in 1..3 |->
                             E1(fs[i], MScale(CI, MSub(MMul(F[i], O[i][q]), MMul(O[i][q], F[i]))))])]),
                    RF |-> TLCEval([i \in 1..Len(fs) |-> E1(fs[i], F[i])])]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
FixedPoints == \A i \in 1..Len(fs) :
   /\ LeftMap(fs[i].A, fs[i].l) = RScale(fs[i].N, fs[i].l)
   /\ RightMap(fs[i].A, fs[i].r) = RScale(fs[i].N, fs[i].r)
   /\ IsHermitian(fs[i].l) /\ IsHermitian(fs[i].r)
PosDef(M) == LET D == Len(M) IN
   /\ \A a \in 1..D : M[a][a][1] > 0
   /\ D = 2 => M[1][1][1]*M[2][2][1] > CAbs2(M[1][2])
Environments == \A i \in 1..Len(fs) : PosDef(fs[i].l) /\ PosDef(fs[i].r)
SamePairing == \A i \in 1..Len(fs) : Pairing(fs[i]) = Pairing(ini.fs[i])
SameValues == \A i \in 1..Len(fs) :
   /\ \A q \in 1..2 : E1(fs[i], ini.O[i][q]) = ini.E1[i][q]
   /\ E1(fs[i], MId(fs[i].d)) = <<1, 1>>
SameEnergy == \A i \in 1..Len(fs) : E2(fs[i], ini.h[i]) = ini.E2[i]
\* the leading eigenvalue of the transfer matrix of a state with itself
RECURSIVE Horner(_, _)
Horner(cs, x) == IF Len(cs) = 1 THEN cs[1] ELSE CAdd(CScale(x, Horner(SubSeq(cs, 1, Len(cs)-1), x)), cs[Len(cs)])
SelfOverlap == (hist = <<>> /\ ini.ov.same /\ ini.ov.poly # <<>>) => CZero(Horner(ini.ov.poly, ini.ov.N))
\* a local term and the same term moved by one site: the expectations agree
Telescope == hist = <<>> => \A i \in 1..Len(fs) : LET d == fs[i].d IN
   E2(fs[i], MSub(MKron(ini.G[i], MId(d)), MKron(MId(d), ini.G[i]))) = <<0, 1>>
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, hist |-> hist])>>)
=============================================================================
