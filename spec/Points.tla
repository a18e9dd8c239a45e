------------------------------- MODULE Points -------------------------------
(***************************************************************************)
(* Points of the manifold of matrix product states, their tangent vectors  *)
(* and hermitian two-site terms; shared by Tangent and Response.           *)
(***************************************************************************)
EXTENDS MPS
P1(i) == <<X, Y, Z>>[i]
Term(s, i, d0) ==
  LET p == Rnd(s, i) % 6 IN
  IF p = 0 THEN MZero(d0*d0, d0*d0)
  ELSE IF p = 1 /\ d0 = 2 THEN MAdd(MKron(Z, Z), MKron(X, I2))
  ELSE IF p = 2 /\ d0 = 2 THEN MAdd(MKron(X, Y), MKron(Y, X))
  ELSE IF p = 3 THEN MKron(MId(d0), RndHerm(s, i, d0, 1))
  ELSE RndHerm(s, i, d0*d0, 1)

(* ---------------- the tangent vectors, one per tensor entry -------------- *)
Shape(A) == <<Len(A), Len(A[1]), Cols(A[1])>>
UnitT(sh, n) == LET q == sh[2]*sh[3] IN
   TLCEval([s \in 1..sh[1] |-> Mat(sh[2], sh[3], LAMBDA a, b : IF (s-1)*q + (a-1)*sh[3] + b = n THEN C1 ELSE C0)])
TangentAt(Bs, k) == LET sh == Shape(Bs[k]) IN
   [n \in 1..(sh[1]*sh[2]*sh[3]) |-> Dense([Bs EXCEPT ![k] = UnitT(sh, n)])]
RECURSIVE Tangents(_, _)
Tangents(Bs, k) == IF k = 0 THEN <<>> ELSE Tangents(Bs, k-1) \o TangentAt(Bs, k)
\* dimension of the tangent space, the direction of psi included
DimOf(Bs) == SumSeq([k \in 1..Len(Bs) |-> LET sh == Shape(Bs[k]) IN sh[1]*sh[2]*sh[3]])
           - SumSeq([k \in 1..(Len(Bs)-1) |-> LET D == Shape(Bs[k])[3] IN D*D])

RECURSIVE HPsi(_, _, _, _, _)
HPsi(v, d0, L0, ts, k) == IF k = 0 THEN VScale(C0, v)
  ELSE VAdd(ApplyBlock(v, d0, L0, k-1, 2, ts[k]), HPsi(v, d0, L0, ts, k-1))
\* n H psi - <H> psi
Grad(v, hv) == VSub(VScale(<<Norm2(v), 0>>, hv), VScale(Inner(v, hv), v))

Profile(s, d0, L0, MaxD) ==
  CASE Rnd(s, 4) % 4 = 0 -> StdBonds(d0, L0, Pow(d0, L0))      \* full
    [] Rnd(s, 4) % 4 = 1 -> StdBonds(d0, L0, MaxD)
    \* irregular profiles a state can have: every bond at most d times its neighbours
    [] OTHER -> LET raw == RndBonds(s, L0, MaxD)
                    f == FoldLeft(LAMBDA acc, k : Append(acc, Min2(raw[k], d0*acc[Len(acc)])), <<1>>, [k \in 1..L0 |-> k+1])
                    rv(x) == [k \in 1..Len(x) |-> x[Len(x)+1-k]]
                    g == rv(f) IN
                rv(FoldLeft(LAMBDA acc, k : Append(acc, Min2(g[k], d0*acc[Len(acc)])), <<1>>, [k \in 1..L0 |-> k+1]))
=============================================================================
