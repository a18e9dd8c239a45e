--------------------------------- MODULE Mpo ---------------------------------
(***************************************************************************)
(* Matrix product operators on a finite chain.  An operator is a sequence  *)
(* of tensors with legs (up, right, down, left); it denotes a matrix whose *)
(* columns are labelled by the up legs and rows by the down legs, first    *)
(* site most significant (the code reports the conjugate of the            *)
(* contraction, and so does `mat').  The model keeps the tensors and the   *)
(* matrix; every operation acts on each by its own rule.                   *)
(***************************************************************************)
EXTENDS Flat, MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, ops, mat, hist, ini
vars == <<seed, ops, mat, hist, ini>>
Rn(s, i, n) == Rnd(s, i) % n

(* ----------------------------- contraction ------------------------------- *)
Join(F_, t_) ==
  LET F == TLCEval(F_)  t == TLCEval(t_)  u == t.dims[1]  n == t.dims[3]  l == t.dims[4] IN
  Tens(<<F.dims[1]*n, F.dims[2]*u, t.dims[2]>>,
       LAMBDA ds : CSumSeq(TLCEval([m \in 1..l |->
          LET c == At(t, <<ds[2] % u, ds[3], ds[1] % n, m-1>>) IN
          IF CZero(c) THEN C0 ELSE CMul(c, At(F, <<ds[1] \div n, ds[2] \div u, m-1>>))])))
Matrix(ts_) == LET ts == TLCEval(ts_)
                   F == TLCEval(FoldLeft(LAMBDA a, t : Join(a, t), [dims |-> <<1, 1, 1>>, data |-> <<C1>>], ts)) IN
  Mat(F.dims[1], F.dims[2], LAMBDA i, j : CConj(At(F, <<i-1, j-1, 0>>)))

(* ------------------------------ operations ------------------------------- *)
\* a after b: the up legs of a meet the down legs of b
Times(a_, b_) == LET a == TLCEval(a_)  b == TLCEval(b_) IN
  TLCEval([k \in 1..Len(a) |->
    LET s == a[k]  t == b[k]  c == s.dims[1]  r == s.dims[2]  l == s.dims[4] IN
    Tens(<<t.dims[1], t.dims[2]*r, s.dims[3], t.dims[4]*l>>,
         LAMBDA ds : CSumSeq(TLCEval([m \in 1..c |->
            CMul(At(s, <<m-1, ds[2] % r, ds[3], ds[4] % l>>), At(t, <<ds[1], ds[2] \div r, m-1, ds[4] \div l>>))])))])
UpDown(a_) == LET a == TLCEval(a_) IN TLCEval([k \in 1..Len(a) |-> Transpose(a[k], <<3, 2, 1, 4>>)])
Mirrored(a_) == LET a == TLCEval(a_)  n == Len(a) IN TLCEval([k \in 1..n |-> Transpose(a[n+1-k], <<1, 4, 3, 2>>)])
\* a quarter turn clockwise: what pointed left points up
Turned(a_) == LET a == TLCEval(a_) IN TLCEval([k \in 1..Len(a) |-> Transpose(a[k], <<4, 1, 2, 3>>)])
TurnedBack(a_) == LET a == TLCEval(a_) IN TLCEval([k \in 1..Len(a) |-> Transpose(a[k], <<2, 3, 4, 1>>)])
Ups(a) == TLCEval([k \in 1..Len(a) |-> a[k].dims[1]])
Downs(a) == TLCEval([k \in 1..Len(a) |-> a[k].dims[3]])
Bonds(a) == TLCEval([k \in 1..Len(a) |-> a[k].dims[2]])
Rev(s) == TLCEval([k \in 1..Len(s) |-> s[Len(s)+1-k]])
\* the label with its digits in reverse order
RevLabel(m, dims) == Pos(Rev(Digits(m, dims)), Rev(dims))
MirrorMatrix(M_, dn_, up_) == LET M == TLCEval(M_)  dn == TLCEval(dn_)  up == TLCEval(up_) IN
  \* row i of the mirrored matrix is the row whose reversed label is i
  Mat(Len(M), Cols(M), LAMBDA i, j : M[1 + RevLabel(i-1, Rev(dn))][1 + RevLabel(j-1, Rev(up))])
\* a chain of matrices (a state) standing on its physical legs
Column(As_) == LET As == TLCEval(As_) IN
  TLCEval([k \in 1..Len(As) |-> Tens(<<1, Cols(As[k][1]), Len(As[k]), Len(As[k][1])>>, LAMBDA ds : As[k][ds[3]+1][ds[4]+1][ds[2]+1])])

(* ------------------------------- operators ------------------------------- *)
RndOps(s, up, dn, D) == LET n == Len(up)  b(k) == IF k = 0 \/ k = n THEN 1 ELSE 1 + Rn(s, 60 + k, D) IN
  TLCEval([k \in 1..n |-> RndT(s, 2000 + 150*k, <<up[k], b(k), dn[k], b(k-1)>>, 1)])
\* from a table of operators W[left][right] at every place
FromTable(n, d, W(_), D) ==
  TLCEval([k \in 1..n |-> LET w == TLCEval(W(k))  l == IF k = 1 THEN 1 ELSE D  r == IF k = n THEN 1 ELSE D IN
     Tens(<<d, r, d, l>>, LAMBDA ds : w[IF k = 1 THEN D ELSE ds[4]+1][IF k = n THEN 1 ELSE ds[2]+1][ds[3]+1][ds[1]+1])])
O0(d) == MZero(d, d)
LocalSum(s, n, d) == FromTable(n, d, LAMBDA k : << <<MId(d), O0(d)>>, <<RndM(s, 800 + 20*k, d, d, 1), MId(d)>> >>, 2)
PairSum(s, n, d) == FromTable(n, d, LAMBDA k : << <<MId(d), O0(d), O0(d)>>,
                                               <<RndM(s, 800 + 20*k, d, d, 1), O0(d), O0(d)>>,
                                               <<RndM(s, 1000 + 20*k, d, d, 1), RndM(s, 1200 + 20*k, d, d, 1), MId(d)>> >>, 3)
StringOf(s, n, d) == FromTable(n, d, LAMBDA k : << <<RndM(s, 800 + 20*k, d, d, 1)>> >>, 1)
\* the same as matrices
RECURSIVE KronAll(_, _)
KronAll(F(_), n) == IF n = 0 THEN <<<<C1>>>> ELSE MKron(KronAll(F, n-1), F(n))
MSum(F(_), n, d) == LET N == Pow(d, n) IN FoldLeft(LAMBDA a, b : MAdd(a, b), MZero(N, N), TLCEval([k \in 1..n |-> F(k)]))
LocalSumM(s, n, d) == FoldLeft(LAMBDA a, k : MAdd(a, KronAll(LAMBDA q : IF q = k THEN RndM(s, 800 + 20*q, d, d, 1) ELSE MId(d), n)), MZero(Pow(d, n), Pow(d, n)), [k \in 1..n |-> k])
PairSumM(s, n, d) ==
  LET N == Pow(d, n)
      one == FoldLeft(LAMBDA a, k : MAdd(a, KronAll(LAMBDA q : IF q = k THEN RndM(s, 1000 + 20*q, d, d, 1) ELSE MId(d), n)), MZero(N, N), [k \in 1..n |-> k])
      two == FoldLeft(LAMBDA a, k : MAdd(a, KronAll(LAMBDA q : IF q = k THEN RndM(s, 1200 + 20*q, d, d, 1) ELSE IF q = k+1 THEN RndM(s, 800 + 20*q, d, d, 1) ELSE MId(d), n)), MZero(N, N), [k \in 1..(n-1) |-> k]) IN
  MAdd(one, two)
StringM(s, n, d) == KronAll(LAMBDA q : RndM(s, 800 + 20*q, d, d, 1), n)

(* ------------------------------ transitions ------------------------------ *)
H(n, i) == Rnd(seed, 7000 + 53*n + i)
Big(M) == \E i \in 1..Len(M) : \E j \in 1..Cols(M) : Abs(M[i][j][1]) > 40000 \/ Abs(M[i][j][2]) > 40000
Room(a) == \A k \in 1..Len(a) : a[k].dims[2] <= 4
Chg(op, a, M, rec) == /\ ops' = a /\ mat' = M
                      /\ hist' = Append(hist, [op |-> op, mat |-> M] @@ rec)
                      /\ UNCHANGED <<seed, ini>>
Ask(op, rec) == /\ hist' = Append(hist, [op |-> op] @@ rec)
                /\ UNCHANGED <<seed, ini, ops, mat>>
Kind(n) == Pick(seed, 7000 + 53*n, <<"before", "before", "after", "after", "state", "state", "ud", "ud", "mirror", "mirror", "turn", "round">>)
\* physical dimensions that keep the dense matrix small
Legs(s, i, n) == TLCEval([k \in 1..n |-> IF n <= 2 THEN 1 + Rn(s, i + k, 3) ELSE 1 + Rn(s, i + k, 2)])
Before == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "before"
  /\ ~Big(mat)
  /\ Room(ops)
  /\ \E a \in {ops} : \E b \in {RndOps(seed + 31*n + 7, Legs(seed, 400 + 10*n, Len(a)), Ups(a), 2)} :
       Chg("before", Times(a, b), MMul(mat, Matrix(b)), [other |-> b])
After == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "after"
  /\ ~Big(mat)
  /\ Room(ops)
  /\ \E a \in {ops} : \E b \in {RndOps(seed + 31*n + 7, Downs(a), Legs(seed, 400 + 10*n, Len(a)), 2)} :
       Chg("after", Times(b, a), MMul(Matrix(b), mat), [other |-> b])
\* acting on a state
OnState == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "state"
  /\ ~Big(mat)
  /\ Room(ops)
  /\ \A k \in 1..Len(ops) : ops[k].dims[1] = ops[1].dims[1]
  /\ \E a \in {ops} : \E M \in {mat} : \E d \in {a[1].dims[1]} : \E L \in {Len(a)} :
     \E As \in {RndChain(seed + 13*n, d, L, RndBonds(seed + n, L, 3), 1)} :
       Ask("state", [chain |-> As, e |-> TLCEval(MVec(M, VConj(Dense(As))))])
Transposed == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "ud"
  /\ \E a \in {ops} : \E M \in {mat} : Chg("ud", UpDown(a), MT(M), <<>>)
Mirror == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "mirror"
  /\ \E a \in {ops} : \E M \in {mat} : Chg("mirror", Mirrored(a), MirrorMatrix(M, Downs(a), Ups(a)), <<>>)
Turn == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "turn"
  /\ \E a \in {ops} : Ask("turn", [cw |-> Turned(a), ccw |-> TurnedBack(a)])
Round == LET n == Len(hist) IN
  /\ n < Depth
  /\ \/ Kind(n) = "round"
     \/ (Kind(n) \in {"before", "after", "state"} /\ (Big(mat) \/ ~Room(ops)))
     \/ Kind(n) = "state"
  /\ Ask("round", <<>>)
Next == \/ Before
        \/ After
        \/ OnState
        \/ Transposed
        \/ Mirror
        \/ Turn
        \/ Round
Kinds == <<"free", "free", "free", "locals", "pairs", "string", "state">>
Init == /\ seed \in SeedLo..SeedHi /\ hist = <<>>
        /\ \E n \in {1 + Rn(seed, 1, 4)} : \E kind \in {Pick(seed, 2, Kinds)} :
           \E d \in {IF n <= 2 THEN 2 + Rn(seed, 3, 2) ELSE 2} :
           \E As \in {IF kind = "state" THEN RndChain(seed, d, n, RndBonds(seed, n, 3), 1) ELSE <<>>} :
           \E a \in {CASE kind = "free" -> RndOps(seed, Legs(seed, 20, n), Legs(seed, 30, n), 3)
                       [] kind = "locals" -> LocalSum(seed, n, d)
                       [] kind = "pairs" -> PairSum(seed, n, d)
                       [] kind = "string" -> StringOf(seed, n, d)
                       [] kind = "state" -> Column(As)} :
           \E M \in {Matrix(a)} :
             /\ ops = a /\ mat = M
             /\ ini = [n |-> n, d |-> d, kind |-> kind, chain |-> As, ops |-> a, mat |-> M]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
Denotes == \A a \in {ops} : \A M \in {mat} : Matrix(a) = M
Fits == \A k \in 1..Len(ops) : /\ IF k = 1 THEN ops[k].dims[4] = 1 ELSE ops[k].dims[4] = ops[k-1].dims[2]
                               /\ k = Len(ops) => ops[k].dims[2] = 1
\* operators written as sums denote the sums; a state denotes its amplitudes
Known == hist = <<>> => \A o \in {ini} :
   CASE o.kind = "locals" -> o.mat = MConj(LocalSumM(seed, o.n, o.d))
     [] o.kind = "pairs" -> o.mat = MConj(PairSumM(seed, o.n, o.d))
     [] o.kind = "string" -> o.mat = MConj(StringM(seed, o.n, o.d))
     [] o.kind = "state" -> TLCEval([i \in 1..Len(o.mat) |-> o.mat[i][1]]) = VConj(Dense(o.chain))
     [] OTHER -> TRUE
\* four quarter turns, two flips and two reflections do nothing
Cyclic == hist = <<>> => \A a \in {ops} : /\ Turned(Turned(Turned(Turned(a)))) = a
                                          /\ TurnedBack(Turned(a)) = a
                                          /\ UpDown(UpDown(a)) = a
                                          /\ Mirrored(Mirrored(a)) = a
                                          /\ Turned(Turned(a)) = UpDown(TLCEval([k \in 1..Len(a) |-> Transpose(a[k], <<1, 4, 3, 2>>)]))
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, hist |-> hist])>>)
=============================================================================
