----------------------------- MODULE Stability ------------------------------
(***************************************************************************)
(* How fast neighbouring states separate along the projected evolution.    *)
(* Four kinds of machine:                                                  *)
(*  "rest"   a product state that does not move: fields, pair creation and *)
(*           hopping on top of it, in rotated local bases.  The linearised *)
(*           motion is exact: u' = Mm v, v' = -Mp u with integer Mm, Mp,   *)
(*           whatever constant is added to H;                              *)
(*  "full"   a state whose manifold is all of space: nothing separates;    *)
(*  "free"   a moving product state, and                                   *)
(*  "bonded" a moving entangled state: volumes are kept, constants do not  *)
(*           matter.                                                       *)
(* The trajectory is followed in runs; a later run goes on where the last  *)
(* one stopped, with the directions it had, and adds to its records.       *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, ini, done, dirs, hist
vars == <<seed, ini, done, dirs, hist>>
R1(n) == <<n, 0>>
Sgn(b) == IF b THEN 1 ELSE -1
\* local bases: n = 0..: a permutation with phases, or a 3-4-5 rotation
Phase(n) == <<C1, CI, <<-1, 0>>, <<0, -1>>>>[1 + (n % 4)]
Local(s, i) ==
  LET p == Phase(Rnd(s, i))  q == Phase(Rnd(s, i+1)) IN
  CASE Rnd(s, i+2) % 3 = 0 -> [den |-> 1, U |-> <<<<p, C0>>, <<C0, q>>>>]
    [] Rnd(s, i+2) % 3 = 1 -> [den |-> 1, U |-> <<<<C0, p>>, <<q, C0>>>>]
    [] OTHER -> [den |-> 5, U |-> <<<<CScale(3, p), CScale(4, q)>>, <<CScale(-4, p), CScale(3, q)>>>>]
\* field a on the left, a2 on the right, XX, YY, ZZ, a constant
Piece(c) == LET f(k, M) == MScale(R1(k), M) IN
  MAdd(MAdd(MAdd(f(c.a, MKron(Z, I2)), f(c.a2, MKron(I2, Z))), MAdd(f(c.b, MKron(X, X)), f(c.y, MKron(Y, Y)))),
       MAdd(f(c.e, MKron(Z, Z)), f(c.k, MId(4))))
Total(psi, L, ts) ==
  LET S[k \in 0..Len(ts)] == IF k = 0 THEN VScale(C0, psi) ELSE VAdd(S[k-1], ApplyBlock(psi, 2, L, k-1, 2, ts[k])) IN S[Len(ts)]
Basis(n, L) == TLCEval([m \in 1..Pow(2, L) |-> IF m = n THEN C1 ELSE C0])
Bit(L, i) == 1 + Pow(2, L-i)          \* label with site i (from 1) flipped
Rest(s) ==
  LET L == 2 + (Rnd(s, 1) % 2)
      cs == TLCEval([n \in 1..(L-1) |-> [a |-> RndIn(s, 10*n, -2, 2), a2 |-> IF n = L-1 THEN RndIn(s, 10*n+1, -2, 2) ELSE 0,
              b |-> RndIn(s, 10*n+2, -2, 2), y |-> RndIn(s, 10*n+3, -2, 2), e |-> RndIn(s, 10*n+4, -1, 1), k |-> RndIn(s, 10*n+5, -2, 2)]])
      us == TLCEval([n \in 1..L |-> Local(s, 200 + 10*n)])
      ts == TLCEval([n \in 1..(L-1) |-> Piece(cs[n])])
      field(i) == (IF i < L THEN cs[i].a ELSE 0) + (IF i = L THEN cs[L-1].a2 ELSE 0)
      zz(i) == (IF i < L THEN cs[i].e ELSE 0) + (IF i > 1 THEN cs[i-1].e ELSE 0)
      hop(i, j) == IF i = j THEN -2*field(i) - 2*zz(i) ELSE IF Abs(i-j) = 1 THEN cs[Min2(i, j)].b + cs[Min2(i, j)].y ELSE 0
      pair(i, j) == IF Abs(i-j) = 1 THEN cs[Min2(i, j)].b - cs[Min2(i, j)].y ELSE 0 IN
  [L |-> L, plain |-> ts,
   ts |-> TLCEval([n \in 1..(L-1) |-> LET W == MKron(us[n].U, us[n+1].U) IN MMul(W, MMul(ts[n], MDag(W)))]),
   dens |-> TLCEval([n \in 1..(L-1) |-> LET q == us[n].den * us[n+1].den IN q*q]),
   sites |-> TLCEval([n \in 1..L |-> [den |-> us[n].den, v |-> <<us[n].U[1][1], us[n].U[2][1]>>]]),
   psi |-> <<>>, chain |-> <<>>,
   Mp |-> TLCEval([i \in 1..L |-> [j \in 1..L |-> hop(i, j) + pair(i, j)]]),
   Mm |-> TLCEval([i \in 1..L |-> [j \in 1..L |-> hop(i, j) - pair(i, j)]])]
Moving(s, kind) ==
  LET L == IF kind = "free" THEN 2 + (Rnd(s, 1) % 3) ELSE IF kind = "full" THEN 2 + (Rnd(s, 1) % 2) ELSE 4
      ts == TLCEval([n \in 1..(L-1) |-> RndHerm(s, 100*n, 4, 1)]) IN
  [L |-> L, plain |-> ts, ts |-> ts, dens |-> TLCEval([n \in 1..(L-1) |-> 4]),
   sites |-> <<>>, psi |-> IF kind = "full" THEN RndVec(s, 800, Pow(2, L), 2) ELSE <<>>,
   chain |-> IF kind = "full" THEN <<>> ELSE RndChain(s, 2, L, IF kind = "free" THEN FlatBonds(L, 1) ELSE StdBonds(2, L, 2), 2),
   Mp |-> <<>>, Mm |-> <<>>]
Good(c, kind) ==
  LET v == IF kind = "full" THEN c.psi ELSE IF kind = "rest" THEN Basis(1, c.L) ELSE Dense(c.chain) IN
  /\ Norm2(v) > 0
  /\ kind \in {"full", "bonded"} => \A k \in 1..(c.L-1) : SchmidtRank(v, 2, c.L, k) = Min2(IF kind = "full" THEN 8 ELSE 2, Min2(Pow(2, k), Pow(2, c.L-k)))
Kinds == <<"rest", "rest", "full", "free", "bonded">>
H(i) == Rnd(seed, 3000 + 20*Len(hist) + i)
Init == \E s \in SeedLo..SeedHi :
  \E kind \in {Kinds[1 + (s % 5)]} : \E c \in {TLCEval(IF kind = "rest" THEN Rest(s) ELSE Moving(s, kind))} :
    /\ Good(c, kind)
    /\ seed = s /\ ini = [kind |-> kind, shift |-> 1 + (Rnd(s, 9) % 3)] @@ c
    /\ done = 0 /\ dirs = "none" /\ hist = <<>>
\* the first run chooses the directions to follow, later ones keep them
Run(b) ==
  /\ Len(hist) < Depth
  /\ b = IF dirs # "none" THEN dirs ELSE Pick(seed, 2000, <<"schur", "schur", "eye", "F2", "rand">>)
  /\ \E n \in {3 + (H(1) % 4)} : \E k \in {H(2) % 3} :
       /\ done' = done + n
       /\ hist' = Append(hist, [basis |-> b, n |-> n, k |-> k, total |-> done + n])
  /\ dirs' = b
  /\ UNCHANGED <<seed, ini>>
Next == \/ Run("schur")
        \/ Run("eye")
        \/ Run("F2")
        \/ Run("rand")
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
\* the rates are the matrix elements of H between the tangent directions, and of pairs of them
Linearised == (hist = <<>> /\ ini.kind = "rest") => \A c \in {ini} :
  \A o \in {Basis(1, c.L)} : \A ho \in {TLCEval(Total(o, c.L, c.plain))} : \A i \in 1..c.L :
    /\ CZero(ho[Bit(c.L, i)])                                         \* it does not move
    /\ \A t \in {Basis(Bit(c.L, i), c.L)} : \A ht \in {TLCEval(Total(t, c.L, c.plain))} : \A j \in 1..c.L :
         LET one == CSub(ht[Bit(c.L, j)], IF i = j THEN ho[1] ELSE C0)
             two == IF i = j THEN C0 ELSE ho[Bit(c.L, i) + Bit(c.L, j) - 1] IN
         /\ CAdd(one, two) = R1(c.Mp[i][j])
         /\ CSub(one, two) = R1(c.Mm[i][j])
Unitary == (hist = <<>> /\ ini.kind = "rest") => \A n \in 1..(ini.L-1) :
  /\ IsHermitian(ini.ts[n])
  /\ MTr(ini.ts[n]) = CScale(ini.dens[n], MTr(ini.plain[n]))
Grows == [][done' > done /\ (dirs # "none" => dirs' = dirs)]_vars
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, hist |-> hist])>>)
=============================================================================
