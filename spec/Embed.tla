------------------------------- MODULE Embed --------------------------------
(***************************************************************************)
(* Operators placed in chains: k-site operators among identities, two-site *)
(* exchange and controlled gates as maps of basis labels, symmetric and    *)
(* antisymmetric parts, commutators, partial traces, the sign of a         *)
(* permutation.  A state is a list of requests with their exact answers.   *)
(***************************************************************************)
EXTENDS Flat, MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, hist
Rn(s, i, n) == Rnd(s, i) % n
H(n, i) == Rnd(seed, 7000 + 53*n + i)
Ask(op, rec) == hist' = Append(hist, [op |-> op] @@ rec) /\ UNCHANGED seed
Kind(n) == Pick(seed, 7000 + 53*n, <<"site", "site", "list", "list", "swap", "sym", "comm", "trace", "trace", "levi", "gates", "wide">>)

\* among identities: one digit block changes, the others stay
Placed(O_, d, n, at, w) == LET O == TLCEval(O_)  N == Pow(d, n) IN
  Mat(N, N, LAMBDA i, j : IF i = SetBlock(j, d, n, at, w, Block(i, d, n, at, w))
                          THEN O[1 + Block(i, d, n, at, w)][1 + Block(j, d, n, at, w)] ELSE C0)
Swapped(j) == Pick(0, 0, <<<<1, 3, 2, 4>>>>)[j]
MapMatrix(N, f(_)) == Mat(N, N, LAMBDA i, j : IF i = f(j) THEN C1 ELSE C0)
SwapM == MapMatrix(4, Swapped)
Controlled == MapMatrix(4, LAMBDA j : IF j = 3 THEN 4 ELSE IF j = 4 THEN 3 ELSE j)
Signed == Mat(4, 4, LAMBDA i, j : IF i # j THEN C0 ELSE IF i = 4 THEN <<-1, 0>> ELSE C1)
\* keep some of the factors
Traced(R_, dims_, keep_) == LET R == TLCEval(R_)  dims == TLCEval(dims_)  keep == TLCEval(keep_)  n == Len(dims)
    kd == TLCEval([q \in 1..Len(keep) |-> dims[keep[q]]])
    off == TLCEval(SelectSeq([q \in 1..n |-> q], LAMBDA q : \A z \in 1..Len(keep) : keep[z] # q))
    od == TLCEval([q \in 1..Len(off) |-> dims[off[q]]])
    full(a, b) == Pos([q \in 1..n |-> IF \E z \in 1..Len(keep) : keep[z] = q THEN a[CHOOSE z \in 1..Len(keep) : keep[z] = q]
                                      ELSE b[CHOOSE z \in 1..Len(off) : off[z] = q]], dims) IN
  Mat(Prod(kd), Prod(kd), LAMBDA i, j : CSumSeq(TLCEval([t \in 1..Prod(od) |->
      LET b == Digits(t-1, od) IN R[1 + full(Digits(i-1, kd), b)][1 + full(Digits(j-1, kd), b)]])))
Inversions(p) == Cardinality({<<a, b>> \in (1..Len(p)) \X (1..Len(p)) : a < b /\ p[a] > p[b]})
Sign(p) == IF Cardinality({p[i] : i \in 1..Len(p)}) < Len(p) THEN 0 ELSE IF Inversions(p) % 2 = 0 THEN 1 ELSE -1

Site == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "site"
  /\ \E d \in {2 + (H(t, 1) % 3)} : \E n \in {1 + (H(t, 2) % (IF d = 2 THEN 4 ELSE 3))} : \E i \in {1 + (H(t, 3) % n)} :
     \E O \in {RndM(seed, 300 + 40*t, d, d, 3)} :
       Ask("site", [d |-> d, n |-> n, i |-> i, O |-> O, e |-> Placed(O, d, n, i-1, 1)])
\* the k-th operator of a list of operators on w neighbouring sites
List == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "list"
  /\ \E d \in {2 + (H(t, 1) % 2)} : \E w \in {1 + (H(t, 4) % (IF d = 2 THEN 3 ELSE 2))} :
     \E n \in {w + (H(t, 2) % (IF d = 2 THEN 3 ELSE 2))} : \E i \in {H(t, 3) % (n-w+1)} :
     \E O \in {RndM(seed, 300 + 40*t, Pow(d, w), Pow(d, w), 3)} :
       Ask("list", [d |-> d, w |-> w, n |-> n, i |-> i, O |-> O, e |-> Placed(O, d, n, i, w)])
\* operators on many sites, by their diagonals: a label is found in the middle digits
Within(j, d, a, w) == ((j \div Pow(d, a)) % Pow(d, w))
Wide == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "wide"
  /\ \E d \in {2 + (H(t, 1) % 5)} :
     \E w \in {1 + (H(t, 2) % (CASE d = 2 -> 8 [] d = 3 -> 5 [] d = 4 -> 4 [] OTHER -> 3))} :
     \E n \in {w + (H(t, 3) % (IF Pow(d, w) > 100 THEN 2 ELSE 3))} : \E i \in {H(t, 4) % (n-w+1)} :
     \E v \in {TLCEval([k \in 1..Pow(d, w) |-> (Rnd(seed, 300 + 40*t + k) % 9) - 4])} :
       Ask("wide", [d |-> d, w |-> w, n |-> n, i |-> i, v |-> v,
                    e |-> TLCEval([k \in 1..Pow(d, n) |-> v[1 + Within(k-1, d, n-w-i, w)]])])
Swap == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "swap"
  /\ \E u \in {RndVec(seed, 300 + 40*t, 4, 5)} : Ask("swap", [u |-> u, e |-> TLCEval([k \in 1..4 |-> u[Swapped(k)]])])
Parts == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "sym"
  /\ \E O \in {RndM(seed, 300 + 40*t, 4, 4, 3)} : \E P \in {MMul(SwapM, MMul(O, SwapM))} :
       Ask("sym", [O |-> O, sym2 |-> MAdd(O, P), anti2 |-> MSub(O, P), is |-> O = P])
Brackets == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "comm"
  /\ \E d \in {2 + (H(t, 1) % 3)} : \E A \in {RndM(seed, 300 + 80*t, d, d, 3)} : \E B \in {RndM(seed, 340 + 80*t, d, d, 3)} :
       Ask("comm", [A |-> A, B |-> B, minus |-> MSub(MMul(A, B), MMul(B, A)), plus |-> MAdd(MMul(A, B), MMul(B, A))])
Trace == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "trace"
  /\ \E n \in {1 + (H(t, 1) % 4)} : \E dims \in {TLCEval([k \in 1..n |-> 1 + (H(t, 10+k) % (IF n = 4 THEN 2 ELSE 3))])} :
     \E keep \in {LET k == TLCEval(SelectSeq([q \in 1..n |-> q], LAMBDA q : H(t, 20+q) % 2 = 0)) IN IF k = <<>> THEN <<1>> ELSE k} :
     \E R \in {RndM(seed, 300 + 500*t, Prod(dims), Prod(dims), 3)} :
       Ask("trace", [dims |-> dims, keep |-> keep, R |-> R, e |-> Traced(R, dims, keep)])
Levi == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "levi"
  /\ \E n \in {2 + (H(t, 1) % 4)} :
       Ask("levi", [n |-> n, e |-> TLCEval([k \in 1..Pow(n, n) |-> Sign(TLCEval([q \in 1..n |-> 1 + Digits(k-1, TLCEval([z \in 1..n |-> n]))[q]]))])])
Gates == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "gates"
  /\ Ask("gates", [cnot |-> Controlled, cz |-> Signed, swap |-> SwapM])
Next == \/ Site
        \/ List
        \/ Wide
        \/ Swap
        \/ Parts
        \/ Brackets
        \/ Trace
        \/ Levi
        \/ Gates
Init == seed \in SeedLo..SeedHi /\ hist = <<>>
Spec == Init /\ [][Next]_<<seed, hist>>
(* ------------------------- checked on the model -------------------------- *)
Latest == hist[Len(hist)]
\* the identities around are exactly Kronecker factors
Factors == hist # <<>> => \A h \in {Latest} :
   /\ h.op = "site" => h.e = MKron(MId(Pow(h.d, h.i-1)), MKron(h.O, MId(Pow(h.d, h.n-h.i))))
   /\ h.op = "list" => h.e = MKron(MId(Pow(h.d, h.i)), MKron(h.O, MId(Pow(h.d, h.n-h.w-h.i))))
\* every entry of the diagonal is found equally often
Equally == hist # <<>> => \A h \in {Latest} : h.op = "wide" =>
   /\ \A x \in {-4, 0, 3} : Cardinality({k \in 1..Len(h.e) : h.e[k] = x}) = Pow(h.d, h.n-h.w) * Cardinality({k \in 1..Len(h.v) : h.v[k] = x})
   /\ Len(h.e) = Pow(h.d, h.n) /\ h.e[1] = h.v[1] /\ h.e[Len(h.e)] = h.v[Len(h.v)]
Preserved == hist # <<>> => \A h \in {Latest} : h.op = "trace" => MTr(h.e) = MTr(h.R)
Involutions == hist # <<>> => /\ MMul(SwapM, SwapM) = MId(4)
                              /\ MMul(Controlled, Controlled) = MId(4)
                              /\ \A h \in {Latest} : h.op = "sym" => MAdd(h.sym2, h.anti2) = MScale(<<2, 0>>, h.O)
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, hist |-> hist])>>)
=============================================================================
