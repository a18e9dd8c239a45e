-------------------------------- MODULE Flat --------------------------------
(***************************************************************************)
(* Tensors of any number of legs as flat row-major sequences of Gaussian   *)
(* integers together with their dimensions (first leg most significant).   *)
(***************************************************************************)
EXTENDS Gauss
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
\* value of the mixed-radix digits ds (from 0) with radices dims
Pos(ds, dims) == LET n == Len(dims) IN FoldLeft(LAMBDA a, i : a*dims[i] + ds[i], 0, [i \in 1..n |-> i])
\* the digits of n (from 0)
Digits(n, dims) == LET k == Len(dims) IN
  TLCEval([i \in 1..k |-> (n \div Prod(SubSeq(dims, i+1, k))) % dims[i]])
At(t, ds) == t.data[1 + Pos(ds, t.dims)]
Tens(dims, F(_)) == LET D == TLCEval(dims) IN [dims |-> D, data |-> TLCEval([n \in 1..Prod(D) |-> F(Digits(n-1, D))])]
RndT(s, i, dims, m) == LET D == TLCEval(dims) IN [dims |-> D, data |-> TLCEval([n \in 1..Prod(D) |-> RndC(s, i + n, m)])]
\* transpose: leg a of the result is leg perm[a] of t (numbered from 1)
Transpose(t_, p_) == LET t == TLCEval(t_)  p == TLCEval(p_)  n == Len(p) IN
  Tens([a \in 1..n |-> t.dims[p[a]]],
       LAMBDA ds : At(t, [b \in 1..n |-> ds[CHOOSE a \in 1..n : p[a] = b]]))
\* a permutation of 1..n drawn from (s, i)
RECURSIVE PermR(_, _, _)
PermR(s, i, rest) == IF rest = <<>> THEN <<>>
  ELSE LET k == 1 + (Rnd(s, i + Len(rest)) % Len(rest))
       IN <<rest[k]>> \o PermR(s, i, SubSeq(rest, 1, k-1) \o SubSeq(rest, k+1, Len(rest)))
RndPerm(s, i, n) == TLCEval(PermR(s, i, [k \in 1..n |-> k]))
\* matrix <-> two-group tensor
AsMatrix(t, rows) == LET c == Prod(t.dims) \div rows IN Mat(rows, c, LAMBDA i, j : t.data[(i-1)*c + j])
=============================================================================
