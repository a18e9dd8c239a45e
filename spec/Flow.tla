-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Exact time evolution of a finite chain of qubits.  The Hamiltonian is a *)
(* sum of mutually commuting pieces, each a hermitian matrix on a block of *)
(* sites with known integer eigenvalues, and time advances in ticks of an  *)
(* angle f with cos f = p/r, sin f = q/r (Pythagorean triples), so that    *)
(* exp(-i h f) of every piece is an exact Gaussian-rational matrix:        *)
(*   exp(-i h f) = sum_k  z^{l_k}  prod_{j#k} (h - l_j)/(l_k - l_j),       *)
(* z = (p - iq)/r.  A state is a ray; the vector kept is a Gaussian        *)
(* integer vector on it.                                                   *)
(***************************************************************************)
EXTENDS MPS, Json

CONSTANTS SeedLo, SeedHi, Ticks, MaxL

VARIABLES seed, init, psi, time, hist
vars == <<seed, init, psi, time, hist>>

Angles == <<<<3, 4, 5>>, <<4, 3, 5>>, <<12, 5, 13>>, <<24, 7, 25>>, <<15, 8, 17>>, <<0, 1, 1>>>>

\* z^l times r^M: l may be negative
ZPow(a, l, M) == LET z == IF l >= 0 THEN <<a[1], -a[2]>> ELSE <<a[1], a[2]>> IN
  CScale(Pow(a[3], M - Abs(l)), FoldLeft(CMul, C1, [i \in 1..Abs(l) |-> z]))
Biggest(S) == FoldLeft(LAMBDA m, l : Max2(m, Abs(l)), 0, S)
\* prod_{j # k} (h - l_j) as a matrix, and prod (l_k - l_j)
Others(S, k) == SelectSeq(S, LAMBDA l : l # S[k])
PolyAt(h, S, k) == FoldLeft(LAMBDA m, l : MMul(m, MSub(h, MScale(<<l, 0>>, MId(Len(h))))), MId(Len(h)), Others(S, k))
DenAt(S, k) == FoldLeft(LAMBDA m, l : m * (S[k] - l), 1, Others(S, k))
Lcm(a, b) == (Abs(a) \div Gcd(Abs(a), Abs(b))) * Abs(b)
DenAll(S) == FoldLeft(Lcm, 1, [k \in 1..Len(S) |-> DenAt(S, k)])
\* exp(-i h f) times the integer r^M * DenAll
ExpM(a_, h_, S_) ==
  LET a == a_  h == TLCEval(h_)  S == S_  D == DenAll(S)  M == Biggest(S) IN
  TLCEval(FoldLeft(LAMBDA m, k : MAdd(m, MScale(CScale(D \div DenAt(S, k), ZPow(a, S[k], M)), PolyAt(h, S, k))),
                   MZero(Len(h), Len(h)), [k \in 1..Len(S) |-> k]))
\* one tick of a piece
TickPiece(a, pc, v, L) == Primitive(ApplyBlock(v, 2, L, pc.k, pc.w, ExpM(a, pc.h, pc.S)))
Tick(a, pcs, v, L) == FoldLeft(LAMBDA u, pc : TickPiece(a, pc, u, L), v, pcs)

(* ------------------------------ Hamiltonians ---------------------------- *)
P1(i) == <<X, Y, Z>>[i]
Ones(n) == MId(Pow(2, n))
Embed(h, k, w, L) == MKron(Ones(k), MKron(h, Ones(L-k-w)))
Piece(k, w, h, S) == [k |-> k, w |-> w, h |-> h, S |-> S]

\* classical: one Pauli axis per site
Classical(s, L) ==
  LET ax == [m \in 0..(L-1) |-> 1 + (Rnd(s, 50+m) % 3)]
      a == [m \in 0..(L-2) |-> RndIn(s, 60+m, -1, 1)]
      b == [m \in 0..(L-1) |-> IF Rnd(s, 70+m) % 2 = 0 THEN 0 ELSE RndIn(s, 80+m, -1, 1)]
      bonds == SelectSeq([m \in 1..(L-1) |-> m-1], LAMBDA m : a[m] # 0)
      sites == SelectSeq([m \in 1..L |-> m-1], LAMBDA m : b[m] # 0)
  IN [pieces |-> [i \in 1..Len(bonds) |-> LET m == bonds[i] IN Piece(m, 2, MScale(<<a[m], 0>>, MKron(P1(ax[m]), P1(ax[m+1]))), <<1, -1>>)]
              \o [i \in 1..Len(sites) |-> LET m == sites[i] IN Piece(m, 1, MScale(<<b[m], 0>>, P1(ax[m])), <<1, -1>>)],
      unit |-> 1]
\* two-site blocks on every other bond: coupling along the three axes
Dimers(s, L) ==
  LET bl(m) == LET t == RndIn(s, 90+m, 0, 2)
                   c == IF Rnd(s, 95+m) % 2 = 0 THEN 1 ELSE -1
                   XX == MKron(X, X)  YY == MKron(Y, Y)  ZZ == MKron(Z, Z) IN
               CASE t = 0 -> Piece(m, 2, MScale(<<c, 0>>, MAdd(XX, MAdd(YY, ZZ))), IF c = 1 THEN <<1, -3>> ELSE <<-1, 3>>)
                 [] t = 1 -> Piece(m, 2, MScale(<<c, 0>>, MAdd(XX, YY)), <<2, 0, -2>>)
                 [] t = 2 -> Piece(m, 2, MAdd(MScale(<<3, 0>>, MKron(X, Y)), MScale(<<4, 0>>, MKron(Z, Y))), <<5, -5>>)
  IN [pieces |-> SetToSortSeq({bl(2*i) : i \in 0..((L \div 2) - 1)}, LAMBDA p, q : p.k < q.k), unit |-> 2]
\* three sites: isotropic exchange on both bonds (pieces do not commute, the sum is one piece)
Exchange(s) ==
  LET c == IF Rnd(s, 90) % 2 = 0 THEN 1 ELSE -1
      h2 == MScale(<<c, 0>>, MAdd(MKron(X, X), MAdd(MKron(Y, Y), MKron(Z, Z)))) IN
  [pieces |-> <<Piece(0, 3, TLCEval(MAdd(MKron(h2, I2), MKron(I2, h2))), IF c = 1 THEN <<-4, 0, 2>> ELSE <<4, 0, -2>>)>>, unit |-> 2]
\* two anticommuting Pauli strings: 3P + 4Q squares to 25
Strings(s, L) ==
  LET p == [m \in 1..L |-> Rnd(s, 100+m) % 4]
      q0 == [m \in 1..L |-> Rnd(s, 110+m) % 4]
      anti(x, y) == Cardinality({m \in 1..L : x[m] # 0 /\ y[m] # 0 /\ x[m] # y[m]}) % 2 = 1
      pp == IF \A m \in 1..L : p[m] = 0 THEN [p EXCEPT ![1] = 1] ELSE p
      m0 == CHOOSE m \in 1..L : pp[m] # 0
      \* make them anticommute by changing the letter at m0
      q == CHOOSE y \in {[q0 EXCEPT ![m0] = v] : v \in 0..3} : anti(pp, y)
      S4(x) == FoldLeft(LAMBDA m, l : MKron(m, IF l = 0 THEN I2 ELSE P1(l)), <<<<C1>>>>, x)
  IN [pieces |-> <<Piece(0, L, MAdd(MScale(<<3, 0>>, S4(pp)), MScale(<<4, 0>>, S4(q))), <<5, -5>>)>>, unit |-> 5]

\* list of two-site terms, or the whole matrix
AsTerms(pcs, L) ==
  [m \in 1..(L-1) |->
     FoldLeft(LAMBDA acc, pc :
        IF pc.w = 2 /\ pc.k = m-1 THEN MAdd(acc, pc.h)
        ELSE IF pc.w = 1 /\ pc.k = m-1 THEN MAdd(acc, MKron(pc.h, I2))
        ELSE IF pc.w = 1 /\ pc.k = L-1 /\ m = L-1 THEN MAdd(acc, MKron(I2, pc.h))
        ELSE acc, MZero(4, 4), pcs)]
Whole(pcs, L) == FoldLeft(LAMBDA acc, pc : MAdd(acc, Embed(pc.h, pc.k, pc.w, L)), MZero(Pow(2, L), Pow(2, L)), pcs)

(* ------------------------------ the machine ----------------------------- *)
Bound == 20000
Small(v) == \A i \in 1..Len(v) : Abs(v[i][1]) <= Bound /\ Abs(v[i][2]) <= Bound

InitOf(s) ==
  LET L == 2 + (Rnd(s, 2) % (MaxL - 1))
      fam == LET f == Rnd(s, 3) % 4 IN IF f = 2 /\ L # 3 THEN 3 ELSE f
      Hm == TLCEval(CASE fam = 0 -> Classical(s, L) [] fam = 1 -> Dimers(s, L) [] fam = 2 -> Exchange(s) [] fam = 3 -> Strings(s, L))
      big == FoldLeft(LAMBDA m, pc : Max2(m, Biggest(pc.S)), 0, Hm.pieces)
      \* many-level pieces take the angle whose powers do not grow too fast
      ang == IF big >= 4 THEN Pick(s, 5, SubSeq(Angles, 6, 6)) ELSE IF big > 1 THEN Pick(s, 5, <<Angles[1], Angles[2], Angles[6]>>) ELSE Pick(s, 5, Angles)
      \* two-level pieces +-5 are used in units of 5
      two == \A i \in 1..Len(Hm.pieces) : Len(Hm.pieces[i].S) = 2
      bs == StdBonds(2, L, Pow(2, L))
      As == RndChain(s, 2, L, bs, 1)
      v == TLCEval(Dense(As))
      list == fam \in {0, 1, 2} /\ (Rnd(s, 6) % 3 # 0)
      h2(c) == MScale(<<c, 0>>, MAdd(MKron(X, X), MAdd(MKron(Y, Y), MKron(Z, Z))))
  IN [L |-> L, fam |-> fam, tensors |-> As, psi |-> v, ang |-> ang, pieces |-> Hm.pieces, list |-> list,
      terms |-> TLCEval(IF ~list THEN <<>>
                        ELSE IF fam = 2 THEN LET c == IF Rnd(s, 90) % 2 = 0 THEN 1 ELSE -1 IN <<h2(c), h2(c)>>
                        ELSE AsTerms(Hm.pieces, L)),
      whole |-> TLCEval(Whole(Hm.pieces, L)),
      V |-> TLCEval(RndHerm(s, 300, Pow(2, L), 1)), site |-> Rnd(s, 7) % L,
      full |-> ~IsZeroVec(v) /\ \A k \in 0..L : SchmidtRank(v, 2, L, k) = bs[k+1]]

Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
   /\ c.full /\ c.pieces # <<>>
   /\ seed = s /\ init = c /\ psi = c.psi /\ time = 0 /\ hist = <<c.psi>>
Advance ==
  /\ time < Ticks
  /\ \E c \in {init} : \E v \in {TLCEval(Tick(c.ang, c.pieces, psi, c.L))} :
       /\ Small(v)
       /\ psi' = v /\ time' = time + 1 /\ hist' = Append(hist, v)
  /\ UNCHANGED <<seed, init>>
Next == Advance
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
PiecesRight == time = 0 => \E c \in {init} :
   /\ \A i \in 1..Len(c.pieces) : LET pc == c.pieces[i] IN
        /\ IsHermitian(pc.h)
        \* the stated eigenvalues are all of them
        /\ FoldLeft(LAMBDA m, l : MMul(m, MSub(pc.h, MScale(<<l, 0>>, MId(Len(pc.h))))), MId(Len(pc.h)), pc.S) = MZero(Len(pc.h), Len(pc.h))
        \* the tick is unitary up to scale
        /\ LET U == ExpM(c.ang, pc.h, pc.S) IN ScalarOf(MMul(U, MDag(U))) > 0
   /\ \A i, j \in 1..Len(c.pieces) :
        LET a == Embed(c.pieces[i].h, c.pieces[i].k, c.pieces[i].w, c.L)
            b == Embed(c.pieces[j].h, c.pieces[j].k, c.pieces[j].w, c.L) IN MMul(a, b) = MMul(b, a)
   /\ (c.list => c.whole = FoldLeft(LAMBDA acc, m : MAdd(acc, Embed(c.terms[m], m-1, 2, c.L)),
                                    MZero(Pow(2, c.L), Pow(2, c.L)), [m \in 1..(c.L-1) |-> m]))
\* the energy is conserved: <H> n0 = <H>0 n, checked when the numbers are small
Conserved == \E c \in {init} : \A v \in {psi} :
   (\A i \in 1..Len(v) : Abs(v[i][1]) <= 60 /\ Abs(v[i][2]) <= 60) =>
      ExpBlock(v, 2, c.L, 0, c.L, c.whole) * Norm2(c.psi) = ExpBlock(c.psi, 2, c.L, 0, c.L, c.whole) * Norm2(v)
\* running time back undoes a tick
Reversible == time > 0 => \E c \in {init} : \A v \in {psi} : \A u \in {hist[time]} :
   LET b == <<c.ang[1], -c.ang[2], c.ang[3]>>
       w == Tick(b, c.pieces, v, c.L)
       k == CHOOSE i \in 1..Len(u) : ~CZero(u[i]) IN
   Small(w) => \A i \in 1..Len(u) : CMul(w[i], u[k]) = CMul(u[i], w[k])
EmitAtEnd == time = Ticks => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
