------------------------------- MODULE Reports -------------------------------
(***************************************************************************)
(* What a state reports about itself.  A chain of exact isometries (left   *)
(* or right) with the exact environments of its bonds; entries of tensors  *)
(* and of environments are disturbed and restored, and after every step    *)
(* the reports must say which conditions hold now:                         *)
(*   left   sum_s A_s^* A_s = 1          right   sum_s A_s A_s^* = 1       *)
(*   left environments  sum_s A_s L' A_s^* = L                             *)
(*   right environments sum_s A_s^* L A_s = L'                             *)
(*   no zero on the diagonals, unit traces.                                *)
(* Tensor k is M_k / (100 n_k), environment k is S_k / den_k.              *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, side, Ms, ns, Ss, dens, base, hist
vars == <<seed, side, Ms, ns, Ss, dens, base, hist>>
R1(n) == <<n, 0>>
MSum(ms) == FoldLeft(MAdd, ms[1], Tail(ms))
Phase(n) == <<C1, CI, <<-1, 0>>, <<0, -1>>>>[1 + (n % 4)]
Outer(u, v) == Mat(Len(u), Len(v), LAMBDA i, j : CMul(u[i], CConj(v[j])))
Reflect(v) == MSub(MScale(R1(Norm2(v)), MId(Len(v))), MScale(R1(2), Outer(v, v)))
\* a vector with two or three unit entries
Few(s, b, n) == LET k == 1 + (Rnd(s, b) % n)  w == IF n = 2 THEN 2 ELSE 2 + (Rnd(s, b+1) % 2) IN
  TLCEval([i \in 1..n |-> IF (i + k) % n < w THEN Phase(Rnd(s, b+1+i)) ELSE C0])
\* columns of a unitary on (physical, left) as a left isometry with r columns
Iso(s, b, d, l, r) ==
  LET v == Few(s, b, d*l)  U == TLCEval(Reflect(v)) IN
  [n |-> Norm2(v), A |-> TLCEval([p \in 1..d |-> Mat(l, r, LAMBDA a, c : CScale(100, U[(p-1)*l + a][c]))])]
Flip(As) == TLCEval([p \in 1..Len(As) |-> MDag(As[p])])
LeftGram(M) == MSum(TLCEval([p \in 1..Len(M) |-> MMul(MDag(M[p]), M[p])]))
RightGram(M) == MSum(TLCEval([p \in 1..Len(M) |-> MMul(M[p], MDag(M[p]))]))
Down(M, S) == MSum(TLCEval([p \in 1..Len(M) |-> MMul(M[p], MMul(S, MDag(M[p])))]))
Up(M, S) == MSum(TLCEval([p \in 1..Len(M) |-> MMul(MDag(M[p]), MMul(S, M[p]))]))
Div(M, k) == Mat(Len(M), Cols(M), LAMBDA i, j : <<M[i][j][1] \div k, M[i][j][2] \div k>>)
RECURSIVE Bonds(_, _, _, _, _)
Bonds(s, d, L, k, acc) == IF k > L THEN acc
  ELSE Bonds(s, d, L, k+1, Append(acc, IF k = L THEN 1 ELSE 1 + (Rnd(s, 20+k) % Min2(3, d*acc[k]))))
RECURSIVE Envs(_, _)
\* environments from the right end of a left isometric chain
Envs(As, nn) == IF As = <<>> THEN <<[S |-> MId(1), den |-> 1]>>
  ELSE LET rest == TLCEval(Envs(Tail(As), Tail(nn))) IN
       <<[S |-> Div(Down(As[1], rest[1].S), 10000), den |-> rest[1].den * nn[1] * nn[1]]>> \o rest
InitOf(s) ==
  LET d == 2 + (Rnd(s, 1) % 2)  L == 1 + (Rnd(s, 2) % 3)
      bs == TLCEval(Bonds(s, d, L, 1, <<1>>))
      cs == TLCEval([k \in 1..L |-> Iso(s, 100*k, d, bs[k], bs[k+1])])
      As == TLCEval([k \in 1..L |-> cs[k].A])  nn == TLCEval([k \in 1..L |-> cs[k].n])
      E == TLCEval(Envs(As, nn))
      rv(q) == TLCEval([k \in 1..Len(q) |-> q[Len(q)+1-k]]) IN
  IF Rnd(s, 3) % 2 = 0
  THEN [side |-> "left", Ms |-> As, ns |-> nn, Ss |-> TLCEval([k \in 1..(L+1) |-> E[k].S]), dens |-> TLCEval([k \in 1..(L+1) |-> E[k].den])]
  ELSE [side |-> "right", Ms |-> rv(TLCEval([k \in 1..L |-> Flip(As[k])])), ns |-> rv(nn),
        Ss |-> rv(TLCEval([k \in 1..(L+1) |-> E[k].S])), dens |-> rv(TLCEval([k \in 1..(L+1) |-> E[k].den]))]

\* a/x = b/y for matrices, when one of x, y divides the other
SameRatio(A, x, B, y) == IF x % y = 0 THEN A = MScale(R1(x \div y), B) ELSE MScale(R1(y \div x), A) = B
Truth(c) ==
  LET L == Len(c.Ms)
      sq(k) == 100*c.ns[k] IN
  [left |-> \A k \in 1..L : LeftGram(c.Ms[k]) = MScale(R1(sq(k)*sq(k)), MId(Cols(c.Ms[k][1]))),
   right |-> \A k \in 1..L : RightGram(c.Ms[k]) = MScale(R1(sq(k)*sq(k)), MId(Len(c.Ms[k][1]))),
   leftenv |-> \A k \in 1..L : SameRatio(Down(c.Ms[k], c.Ss[k+1]), sq(k)*sq(k)*c.dens[k+1], c.Ss[k], c.dens[k]),
   rightenv |-> \A k \in 1..L : SameRatio(Up(c.Ms[k], c.Ss[k]), sq(k)*sq(k)*c.dens[k], c.Ss[k+1], c.dens[k+1]),
   rank |-> \A k \in 1..(L+1) : \A i \in 1..Len(c.Ss[k]) : ~CZero(c.Ss[k][i][i]),
   trace |-> \A k \in 1..(L+1) : MTr(c.Ss[k]) = R1(c.dens[k])]
Sit == [s |-> seed, n |-> Len(hist), Ms |-> Ms, ns |-> ns, Ss |-> Ss, dens |-> dens, base |-> base, side |-> side]
H(c, i) == Rnd(c.s, 7000 + 41*c.n + i)
Poke(M, p, a, b, z) == [M EXCEPT ![p] = [@ EXCEPT ![a] = [@ EXCEPT ![b] = CAdd(@, z)]]]
Ops == <<"look", "tensor", "tensor", "restore", "restore", "env", "env", "whole", "swapphase">>
Do(c, op) ==
  LET L == Len(c.Ms)  k == 1 + (H(c, 2) % L)  e == 1 + (H(c, 2) % (L+1))  M == c.Ms[k] IN
  CASE op = "look" -> [Ms |-> c.Ms, Ss |-> c.Ss]
    \* one entry moves a little or a lot
    [] op = "tensor" -> [Ms |-> [c.Ms EXCEPT ![k] = Poke(M, 1 + (H(c, 3) % Len(M)), 1 + (H(c, 4) % Len(M[1])), 1 + (H(c, 5) % Cols(M[1])),
                                   CScale(IF H(c, 6) % 2 = 0 THEN 1 ELSE 100, Phase(H(c, 7))))], Ss |-> c.Ss]
    [] op = "restore" -> [Ms |-> IF H(c, 3) % 3 < 2 THEN c.base.Ms ELSE c.Ms, Ss |-> IF H(c, 3) % 3 > 0 THEN c.base.Ss ELSE c.Ss]
    [] op = "env" -> LET S == c.Ss[e]  i == 1 + (H(c, 3) % Len(S))  j == 1 + (H(c, 4) % Len(S)) IN
         [Ms |-> c.Ms, Ss |-> [c.Ss EXCEPT ![e] = [@ EXCEPT ![i] = [@ EXCEPT ![j] = IF H(c, 5) % 2 = 0 THEN C0 ELSE CAdd(@, C1)]]]]
    [] op = "whole" -> [Ms |-> c.Ms, Ss |-> [c.Ss EXCEPT ![e] = MScale(R1(2), @)]]
    \* a phase on a tensor is no disturbance
    [] op = "swapphase" -> [Ms |-> [c.Ms EXCEPT ![k] = TLCEval([p \in 1..Len(M) |-> MScale(Phase(H(c, 3)), M[p])])], Ss |-> c.Ss]
Modest(c) == \A k \in 1..Len(c.Ss) : \A i \in 1..Len(c.Ss[k]) : \A j \in 1..Len(c.Ss[k]) : Abs(c.Ss[k][i][j][1]) <= 2*c.dens[k]
Picked(c) == LET op == Ops[1 + (H(c, 1) % Len(Ops))] IN IF Modest(c) THEN op ELSE "restore"
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ Picked(c) = op
       /\ \E r \in {TLCEval(IF op = "restore" /\ ~Modest(c) THEN [Ms |-> c.Ms, Ss |-> c.base.Ss] ELSE Do(c, op))} :
            /\ Ms' = r.Ms /\ Ss' = r.Ss
            /\ hist' = Append(hist, [op |-> op, Ms |-> r.Ms, Ss |-> r.Ss, is |-> Truth([c EXCEPT !.Ms = r.Ms, !.Ss = r.Ss])])
  /\ UNCHANGED <<seed, side, ns, dens, base>>
Next == \/ Step("look")
        \/ Step("tensor")
        \/ Step("restore")
        \/ Step("env")
        \/ Step("whole")
        \/ Step("swapphase")
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ seed = s /\ side = c.side /\ Ms = c.Ms /\ ns = c.ns /\ Ss = c.Ss /\ dens = c.dens /\ hist = <<>>
  /\ base = [Ms |-> c.Ms, Ss |-> c.Ss]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
\* an undisturbed chain satisfies its conditions
Undisturbed == \A c \in {Sit} : (c.Ms = c.base.Ms /\ c.Ss = c.base.Ss) => \A t \in {TLCEval(Truth(c))} :
  t.trace /\ (IF side = "left" THEN t.left /\ t.leftenv ELSE t.right /\ t.rightenv)
\* a left isometry is square or tall
TallEnough == \A c \in {Sit} : \A t \in {TLCEval(Truth(c))} :
  /\ t.left => \A k \in 1..Len(c.Ms) : Cols(c.Ms[k][1]) <= Len(c.Ms[k]) * Len(c.Ms[k][1])
  /\ t.right => \A k \in 1..Len(c.Ms) : Len(c.Ms[k][1]) <= Len(c.Ms[k]) * Cols(c.Ms[k][1])
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, side |-> side, ns |-> ns, dens |-> dens, hist |-> hist])>>)
=============================================================================
