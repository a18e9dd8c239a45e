------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Exact arithmetic on Gaussian integers, written <<re, im>>, and on the   *)
(* vectors, matrices and rank-3 site tensors built from them.  TLC's       *)
(* integers are 32 bit and overflow is an error, so every value computed   *)
(* here is exact.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

C0 == <<0, 0>>
C1 == <<1, 0>>
CI == <<0, 1>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CNeg(a)    == <<-a[1], -a[2]>>
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CConj(a)   == <<a[1], -a[2]>>
CScale(n, a) == <<n*a[1], n*a[2]>>
CAbs2(a)   == a[1]*a[1] + a[2]*a[2]
CZero(a)   == a[1] = 0 /\ a[2] = 0

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e-1)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))

\* sum of F(i) for i in lo..hi, complex and integer
RECURSIVE CSumR(_, _, _)
CSumR(F(_), lo, hi) == IF lo > hi THEN C0
                       ELSE IF lo = hi THEN F(lo)
                       ELSE LET mid == (lo + hi) \div 2 IN CAdd(CSumR(F, lo, mid), CSumR(F, mid+1, hi))
RECURSIVE SumR(_, _, _)
SumR(F(_), lo, hi) == IF lo > hi THEN 0
                      ELSE IF lo = hi THEN F(lo)
                      ELSE LET mid == (lo + hi) \div 2 IN SumR(F, lo, mid) + SumR(F, mid+1, hi)
CSumSeq(s) == FoldLeft(CAdd, C0, s)
SumSeq(s)  == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* ---------------------------- vectors ---------------------------------- *)
\* TLCEval makes TLC tabulate a function once instead of re-evaluating its body
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> CAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> CSub(u[i], v[i])])
VScale(c, v) == TLCEval([i \in 1..Len(v) |-> CMul(c, v[i])])
VConj(v) == TLCEval([i \in 1..Len(v) |-> CConj(v[i])])
Inner(u, v) == CSumSeq(TLCEval([i \in 1..Len(u) |-> CMul(CConj(u[i]), v[i])]))     \* <u|v>
Norm2(v) == SumSeq(TLCEval([i \in 1..Len(v) |-> CAbs2(v[i])]))
IsZeroVec(v) == \A i \in 1..Len(v) : CZero(v[i])
\* the content of a vector: gcd of all its integer parts
Content(v) == FoldLeft(LAMBDA g, a : IF g = 1 THEN 1 ELSE Gcd(Gcd(g, a[1]), a[2]), 0, v)
\* the primitive integer vector on the same ray (up to sign)
Primitive(v) == LET g == Content(v) IN IF g <= 1 THEN v
                ELSE TLCEval([i \in 1..Len(v) |-> <<v[i][1] \div g, v[i][2] \div g>>])
Kron(u, v) == TLCEval([n \in 1..(Len(u)*Len(v)) |-> CMul(u[1 + ((n-1) \div Len(v))], v[1 + ((n-1) % Len(v))])])

(* ---------------------------- matrices (rows of rows) ------------------- *)
Rows(M) == Len(M)
Cols(M) == Len(M[1])
\* tabulate an n by m matrix
Mat(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i, j)])])
MMul(A_, B_) == LET A == TLCEval(A_)  B == TLCEval(B_)  n == Len(B) IN
                Mat(Len(A), Cols(B), LAMBDA i, j : CSumSeq(TLCEval([k \in 1..n |-> CMul(A[i][k], B[k][j])])))
MVec(A_, v_) == LET A == TLCEval(A_)  v == TLCEval(v_) IN
                TLCEval([i \in 1..Len(A) |-> CSumSeq(TLCEval([k \in 1..Len(v) |-> CMul(A[i][k], v[k])]))])
MAdd(A_, B_) == LET A == TLCEval(A_)  B == TLCEval(B_) IN TLCEval([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MSub(A_, B_) == LET A == TLCEval(A_)  B == TLCEval(B_) IN TLCEval([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MScale(c, A_) == LET A == TLCEval(A_) IN TLCEval([i \in 1..Len(A) |-> VScale(c, A[i])])
MDag(A_) == LET A == TLCEval(A_) IN Mat(Cols(A), Len(A), LAMBDA i, j : CConj(A[j][i]))
MT(A_) == LET A == TLCEval(A_) IN Mat(Cols(A), Len(A), LAMBDA i, j : A[j][i])
MConj(A_) == LET A == TLCEval(A_) IN TLCEval([i \in 1..Len(A) |-> VConj(A[i])])
MTr(A_) == LET A == TLCEval(A_) IN CSumSeq(TLCEval([i \in 1..Len(A) |-> A[i][i]]))
MId(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN C1 ELSE C0)
MZero(n, m) == Mat(n, m, LAMBDA i, j : C0)
MKron(A_, B_) == LET A == TLCEval(A_)  B == TLCEval(B_)  n == Len(B)  m == Cols(B) IN
                 Mat(Len(A)*n, Cols(A)*m, LAMBDA i, j :
                   CMul(A[1 + ((i-1) \div n)][1 + ((j-1) \div m)], B[1 + ((i-1) % n)][1 + ((j-1) % m)]))
IsHermitian(A_) == LET A == TLCEval(A_) IN A = MDag(A)
\* the number c with M = c * identity and c real, or -1
ScalarOf(M) == IF M = MScale(M[1][1], MId(Len(M))) /\ M[1][1][2] = 0 THEN M[1][1][1] ELSE -1
\* complex matrix from its integer real entries
RealM(A) == Mat(Len(A), Len(A[1]), LAMBDA i, j : <<A[i][j], 0>>)

X  == RealM(<<<<0, 1>>, <<1, 0>>>>)
Y  == <<<<C0, <<0, -1>>>>, <<<<0, 1>>, C0>>>>
Z  == RealM(<<<<1, 0>>, <<0, -1>>>>)
I2 == RealM(<<<<1, 0>>, <<0, 1>>>>)

(* --------------------- pseudo-random integers --------------------------- *)
\* A fixed hash of (seed, index): the same seed names the same case forever.
Mix(x) == LET a == x % 46337  b == (a*a + 7*a + 12345) % 46337 IN (b*b + 3*a + 911) % 46337
Rnd(s, i) == Mix(Mix(Mix(s % 46337) + 131*(s \div 46337) + i) + 7*i + 3)
RndIn(s, i, lo, hi) == lo + (Rnd(s, i) % (hi - lo + 1))
RndC(s, i, m) == <<RndIn(s, 2*i, -m, m), RndIn(s, 2*i+1, -m, m)>>
RndM(s, i, n, k, m) == Mat(n, k, LAMBDA a, b : RndC(s, i + (a-1)*k + b, m))
\* random hermitian matrix with entries of size <= 2m
RndHerm(s, i, n, m) == LET A == RndM(s, i, n, n, m) IN MAdd(A, MDag(A))
RndVec(s, i, n, m) == TLCEval([a \in 1..n |-> RndC(s, i + a, m)])
\* choose one of the elements of a sequence
Pick(s, i, seq) == seq[1 + (Rnd(s, i) % Len(seq))]
=============================================================================
