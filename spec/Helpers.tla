------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* The small linear algebra underneath the library, asked for in any       *)
(* order: completing vectors and isometries to unitaries, null spaces,     *)
(* unique triangular factors, truncated singular values, eigenvalues,      *)
(* phases, exponentials, block sums, stacks of matrices, padding.  Every   *)
(* request carries the exact facts the answer must have.                   *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, hist
vars == <<seed, hist>>
RECURSIVE PermR(_, _, _)
PermR(s, i, rest) == IF rest = <<>> THEN <<>>
  ELSE LET k == 1 + (Rnd(s, i + Len(rest)) % Len(rest)) IN <<rest[k]>> \o PermR(s, i, SubSeq(rest, 1, k-1) \o SubSeq(rest, k+1, Len(rest)))
R1(n) == <<n, 0>>
Phase(n) == <<C1, CI, <<-1, 0>>, <<0, -1>>>>[1 + (n % 4)]
Outer(u, v) == Mat(Len(u), Len(v), LAMBDA i, j : CMul(u[i], CConj(v[j])))
ColOf(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])
RECURSIVE MPow(_, _)
MPow(M, k) == IF k = 0 THEN MId(Len(M)) ELSE TLCEval(MMul(M, MPow(M, k-1)))
NonZero(v) == IF IsZeroVec(v) THEN [v EXCEPT ![1] = C1] ELSE v
\* |v|^2 minus v v^*: the complement of v
Complement(v) == MSub(MScale(R1(Norm2(v)), MId(Len(v))), Outer(v, v))
\* |v|^2 (1 - 2 v v^* / |v|^2)
Reflect(v) == MSub(MScale(R1(Norm2(v)), MId(Len(v))), MScale(R1(2), Outer(v, v)))
Cut(M, a, b) == TLCEval([i \in 1..Len(M) |-> SubSeq(M[i], a, b)])
ShearOf(n, a, b, c) == Mat(n, n, LAMBDA i, j : IF i = j THEN C1 ELSE IF i = a /\ j = b THEN c ELSE C0)
Blocks(A, B) == Mat(Len(A)+Len(B), Cols(A)+Cols(B), LAMBDA i, j :
  IF i <= Len(A) /\ j <= Cols(A) THEN A[i][j] ELSE IF i > Len(A) /\ j > Cols(A) THEN B[i-Len(A)][j-Cols(A)] ELSE C0)
\* sorted by size, largest first
Desc(s) == SortSeq(s, LAMBDA a, b : a > b)

Ops == <<"embed", "extend", "null", "uqr", "urq", "svd", "cut", "eig", "phase", "exp", "sum", "dots", "pad", "iterate", "haar", "merge", "orders">>
Ask(op, s, b) ==
  LET n == 2 + (Rnd(s, b+1) % 3)  m == 1 + (Rnd(s, b+2) % 3) IN
  CASE op = "embed" -> LET v == TLCEval(NonZero(RndVec(s, b+10, 1 + (Rnd(s, b+1) % 5), 3))) IN
         [op |-> op, v |-> v, n |-> Norm2(v), rest |-> Complement(v)]
    [] op = "extend" ->
         LET v == TLCEval(NonZero(RndVec(s, b+10, n, 2)))  U == TLCEval(Reflect(v))  k == 1 + (Rnd(s, b+3) % n) IN
         [op |-> op, n |-> Norm2(v), Q |-> Cut(U, 1, k), k |-> k, size |-> n,
          rest |-> LET W == Cut(U, k+1, n) IN IF k = n THEN MZero(n, n) ELSE MMul(W, MDag(W)),
          more |-> Rnd(s, b+4) % 4]
    [] op = "null" -> LET A == RndM(s, b+10, m, m + 1 + (Rnd(s, b+3) % 3), 2) IN
         [op |-> op, A |-> A, rank |-> Rank(A)]
    [] op = "uqr" -> LET A == RndM(s, b+10, n+m-1, n, 2) IN [op |-> op, A |-> A, gram |-> MMul(MDag(A), A), rank |-> Rank(A)]
    [] op = "urq" -> LET A == RndM(s, b+10, n, n+m-1, 2) IN [op |-> op, A |-> A, gram |-> MMul(A, MDag(A)), rank |-> Rank(A)]
    \* matrices with known singular values: monomial phases around integers
    [] op = "svd" ->
         LET sv == TLCEval([i \in 1..n |-> Rnd(s, b+20+i) % 6])
             p == PermR(s, b+30, [k \in 1..n |-> k])
             v == TLCEval(NonZero(RndVec(s, b+40, n, 1)))  w == TLCEval(NonZero(RndVec(s, b+60, n, 1)))
             M == Mat(n, n, LAMBDA i, j : IF j = p[i] THEN CMul(Phase(Rnd(s, b+50+i)), R1(sv[i])) ELSE C0) IN
         [op |-> op, A |-> MMul(Reflect(v), MMul(M, Reflect(w))), scale |-> Norm2(v)*Norm2(w), sv |-> Desc(sv), D |-> 1 + (Rnd(s, b+3) % n)]
    [] op = "cut" ->
         LET r == 2 + (Rnd(s, b+4) % 3)
             nz == 1 + (Rnd(s, b+5) % r)
             S == Mat(r, r, LAMBDA i, j : IF i = j /\ i <= nz THEN R1(7 - i) ELSE C0)
             A == TLCEval([p \in 1..2 |-> RndM(s, b + 40 + 20*p, m, r, 2)])
             V == RndM(s, b+10, r, n, 2)
             B == TLCEval([p \in 1..2 |-> RndM(s, b + 140 + 20*p, r, m, 2)])
             U == RndM(s, b+210, n, r, 2)
             D == 1 + (Rnd(s, b+3) % r)
             Part(k) == Mat(r, r, LAMBDA i, j : IF i = j /\ i <= k THEN S[i][i] ELSE C0) IN
         [op |-> op, A |-> A, S |-> S, V |-> V, U |-> U, B |-> B, D |-> D, nz |-> nz,
          left |-> TLCEval([p \in 1..2 |-> MMul(A[p], MMul(Part(D), V))]), leftAll |-> TLCEval([p \in 1..2 |-> MMul(A[p], MMul(S, V))]),
          right |-> TLCEval([p \in 1..2 |-> MMul(U, MMul(Part(D), B[p]))]), rightAll |-> TLCEval([p \in 1..2 |-> MMul(U, MMul(S, B[p]))])]
    [] op = "eig" -> LET M == TLCEval(IF Rnd(s, b+3) % 3 = 0 THEN Outer(RndVec(s, b+10, n, 2), RndVec(s, b+10, n, 2)) ELSE RndHerm(s, b+10, n, 1)) IN
         [op |-> op, M |-> M, tr |-> TLCEval([k \in 1..n |-> MTr(MPow(M, k))[1]])]
    [] op = "phase" -> LET h == RndHerm(s, b+10, n, 2)
                           how == Rnd(s, b+3) % 4
                           M == Mat(n, n, LAMBDA i, j :
                                  IF i = j /\ (i = 1 \/ how = 1) /\ how \in {1, 2} THEN C0
                                  ELSE IF i = n /\ j = 1 /\ CZero(h[n][1]) THEN CI
                                  ELSE IF i = 1 /\ j = n /\ CZero(h[1][n]) THEN CNeg(CI) ELSE h[i][j])
                           z == RndC(s, b+80, 2)  w == IF CZero(z) THEN CI ELSE z IN
         [op |-> op, M |-> M, w |-> w, given |-> MScale(w, M)]
    [] op = "exp" ->
         LET k == 2 + (Rnd(s, b+1) % 3)
             T == Mat(k, k, LAMBDA i, j : IF i < j THEN RndC(s, b+10+5*i+j, 1) ELSE C0)
             a == 1 + (Rnd(s, b+3) % k)  c == 1 + (a % k)  z == Phase(Rnd(s, b+4))
             A == MMul(ShearOf(k, a, c, z), MMul(T, ShearOf(k, a, c, CNeg(z))))
             v == RndVec(s, b+60, k, 2)  p == RndIn(s, b+5, -3, 3)
             \* 48 exp(pA/2) v
             t(i) == VScale(R1(Pow(p, i) * <<48, 24, 6, 1>>[i+1]), MVec(MPow(A, i), v)) IN
         [op |-> op, A |-> A, v |-> v, p |-> p, y |-> VAdd(VAdd(t(0), t(1)), VAdd(t(2), t(3)))]
    [] op = "sum" -> LET A == RndM(s, b+10, n, m, 3)  B == RndM(s, b+60, 1 + (Rnd(s, b+4) % 3), 1 + (Rnd(s, b+5) % 3), 3) IN
         [op |-> op, A |-> A, B |-> B, m |-> Blocks(A, B)]
    [] op = "dots" -> LET k == 1 + (Rnd(s, b+3) % 3)
                          Ms == TLCEval([p \in 1..(1 + (Rnd(s, b+4) % 3)) |-> RndM(s, b + 20*p, n, m, 3)])
                          L == RndM(s, b+100, k, n, 3)  R == RndM(s, b+130, m, k, 3) IN
         [op |-> op, Ms |-> Ms, L |-> L, R |-> R,
          lm |-> TLCEval([p \in 1..Len(Ms) |-> MMul(L, Ms[p])]), mr |-> TLCEval([p \in 1..Len(Ms) |-> MMul(Ms[p], R)]),
          t |-> TLCEval([p \in 1..Len(Ms) |-> MT(Ms[p])]), h |-> TLCEval([p \in 1..Len(Ms) |-> MDag(Ms[p])]), c |-> TLCEval([p \in 1..Len(Ms) |-> MConj(Ms[p])])]
    [] op = "pad" -> LET L == 2 + (Rnd(s, b+3) % 3)
                         A == TLCEval(RndChain(s, 2, L, RndBonds(s, L, 3), 1))
                         B == TLCEval(RndChain(s + 7, 2, L, RndBonds(s + 7, L, 3), 1)) IN
         [op |-> op, A |-> A, B |-> B, a |-> Dense(A), b |-> Dense(B),
          bonds |-> TLCEval([k \in 1..L |-> <<Max2(Shapes(A)[k][2], Shapes(B)[k][2]), Max2(Shapes(A)[k][3], Shapes(B)[k][3])>>])]
    [] op = "iterate" -> [op |-> op, d |-> m,
         one |-> TLCEval([k \in 1..(m*m) |-> <<(k-1) \div m, (k-1) % m>>]),
         two |-> TLCEval([k \in 1..(m*m*m*m) |-> <<<<(k-1) \div (m*m*m), ((k-1) \div (m*m)) % m>>, <<((k-1) \div m) % m, (k-1) % m>>>>])]
    [] op = "haar" -> [op |-> op, n |-> n+m]
    \* two neighbouring tensors of d levels each as one of d*d levels, a unitary on them, an isometry to k levels
    [] op = "merge" ->
         LET d == 2 + (Rnd(s, b+3) % 2)
             l == 1 + (Rnd(s, b+4) % 3)  r == 1 + (Rnd(s, b+5) % 3)
             A == TLCEval([p \in 1..d |-> RndM(s, b + 20*p, l, m, 2)])
             B == TLCEval([p \in 1..d |-> RndM(s, b + 100 + 20*p, m, r, 2)])
             q == PermR(s, b+200, [k \in 1..(d*d) |-> k])
             k == 1 + (Rnd(s, b+6) % (d*d))
             two == TLCEval([p \in 1..(d*d) |-> MMul(A[1 + ((p-1) \div d)], B[1 + ((p-1) % d)])])
             turned == TLCEval([p \in 1..(d*d) |-> MScale(Phase(Rnd(s, b+230+p)), two[q[p]])]) IN
         [op |-> op, d |-> d, A |-> A, B |-> B, two |-> two, turned |-> turned, k |-> k,
          U |-> Mat(d*d, d*d, LAMBDA i, j : IF j = q[i] THEN Phase(Rnd(s, b+230+i)) ELSE C0),
          fewer |-> SubSeq(turned, 1, k), D |-> 1 + (Rnd(s, b+7) % 3)]
    \* numbers as products of two nearly equal ones; positions and momenta in blocks or side by side
    [] op = "orders" ->
         LET N == 1 + (Rnd(s, b+3) % 60)
             a == CHOOSE a \in 1..N : (N % a) = 0 /\ a*a >= N /\ \A c \in 1..N : ((N % c) = 0 /\ c*c >= N) => a <= c IN
         [op |-> op, N |-> N, gap |-> a - (N \div a), n |-> m,
          J |-> Mat(2*m, 2*m, LAMBDA i, j : IF j = i + m THEN C1 ELSE IF i = j + m THEN CNeg(C1) ELSE C0),
          pairs |-> TLCEval([i \in 1..(2*m) |-> IF (i % 2) = 1 THEN (i+1) \div 2 ELSE m + (i \div 2)])]
Request(op) ==
  /\ Len(hist) < Depth
  /\ Pick(seed, 40 + Len(hist), Ops) = op
  /\ \E r \in {TLCEval(Ask(op, seed, 1000 + 400*Len(hist)))} : hist' = Append(hist, r)
  /\ UNCHANGED seed
Next == \/ Request("embed")
        \/ Request("extend")
        \/ Request("null")
        \/ Request("uqr")
        \/ Request("urq")
        \/ Request("svd")
        \/ Request("cut")
        \/ Request("eig")
        \/ Request("phase")
        \/ Request("exp")
        \/ Request("sum")
        \/ Request("dots")
        \/ Request("pad")
        \/ Request("iterate")
        \/ Request("haar")
        \/ Request("merge")
        \/ Request("orders")
Init == seed \in SeedLo..SeedHi /\ hist = <<>>
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
\* the facts handed out are consistent
Facts == hist # <<>> => \A r \in {hist[Len(hist)]} :
  CASE r.op = "embed" -> MMul(r.rest, r.rest) = MScale(R1(r.n), r.rest) /\ IsZeroVec(MVec(r.rest, r.v))
    [] r.op = "extend" ->
         /\ MMul(MDag(r.Q), r.Q) = MScale(R1(r.n*r.n), MId(r.k))
         /\ MAdd(MMul(r.Q, MDag(r.Q)), r.rest) = MScale(R1(r.n*r.n), MId(r.size))
    [] r.op \in {"uqr", "urq"} -> IsHermitian(r.gram) /\ Rank(r.gram) = r.rank
    \* the squared singular values have the power sums of the Gram matrix
    [] r.op = "svd" -> MTr(MMul(MDag(r.A), r.A))[1] = r.scale*r.scale*FoldLeft(LAMBDA a, k : a + k*k, 0, r.sv)
    [] r.op \in {"eig", "phase"} -> IsHermitian(r.M) /\ (r.op = "phase" => Rank(r.M) > 0)
    [] r.op = "sum" -> Rank(r.m) = Rank(r.A) + Rank(r.B)
    [] r.op = "exp" -> r.p = 0 => r.y = VScale(R1(48), r.v)
    [] r.op = "dots" -> \A p \in 1..Len(r.Ms) : MT(MMul(r.L, r.Ms[p])) = MMul(r.t[p], MT(r.L)) /\ MConj(r.t[p]) = r.h[p]
    [] r.op = "iterate" -> Cardinality(Range(r.one)) = r.d*r.d /\ Cardinality(Range(r.two)) = r.d*r.d*r.d*r.d
    \* the unitary keeps the size and is one
    [] r.op = "merge" -> /\ MMul(MDag(r.U), r.U) = MId(r.d*r.d)
                         /\ FoldLeft(LAMBDA a, M : a + MTr(MMul(MDag(M), M))[1], 0, r.two) = FoldLeft(LAMBDA a, M : a + MTr(MMul(MDag(M), M))[1], 0, r.turned)
    [] r.op = "orders" -> MMul(r.J, r.J) = MScale(CNeg(C1), MId(2*r.n)) /\ Range(r.pairs) = 1..(2*r.n)
    [] OTHER -> TRUE
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, hist |-> hist])>>)
=============================================================================
