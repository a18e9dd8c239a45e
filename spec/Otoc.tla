------------------------------- MODULE Otoc ---------------------------------
(***************************************************************************)
(* Out-of-time-order correlators -<[W(t), V]^2>.  H is a reflection P, so  *)
(* that exp(-iHt) = cos t - i sin t P, and time advances by quarter turns  *)
(* and by the angle of the 3-4-5 triangle, forwards or backwards: all      *)
(* matrices are exact up to powers of five.  The machine moves time and    *)
(* records the correlator; then it may start over with another operator.   *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, ini, ops, turn, tri, out
vars == <<seed, ini, ops, turn, tri, out>>
Paulis == <<I2, X, Y, Z>>
Str(ps) == LET S[k \in 1..Len(ps)] == IF k = 1 THEN Paulis[ps[1]] ELSE MKron(S[k-1], Paulis[ps[k]]) IN S[Len(ps)]
RndStr(s, i, L) == TLCEval([k \in 1..L |-> 1 + (Rnd(s, i+k) % 4)])
\* reflections: Pauli strings, sums of two that anticommute over a 3-4-5 angle, Householder mirrors
Anti(p, q) == (Cardinality({k \in 1..Len(p) : p[k] # 1 /\ q[k] # 1 /\ p[k] # q[k]}) % 2) = 1
Mirror(s, i, L) ==
  LET p == RndStr(s, i, L)  q == RndStr(s, i+20, L) IN
  IF Anti(p, q) THEN [den |-> 5, M |-> MAdd(MScale(<<3, 0>>, Str(p)), MScale(<<4, 0>>, Str(q)))]
  ELSE [den |-> 1, M |-> Str(p)]
\* operators: fields on one site, or on neighbours
Local(s, i, L) ==
  LET n == IF Rnd(s, i+40) % 3 = 0 THEN 2 ELSE 1
      k == Rnd(s, i+41) % (L+1-n)
      h == RndHerm(s, i, Pow(2, n), 1) IN
  [at |-> k, n |-> n, op |-> h, M |-> TLCEval(MKron(MKron(MId(Pow(2, k)), h), MId(Pow(2, L-n-k))))]
\* (cos - i sin P) times den, time = turn quarter turns and tri triangles
Quarter(n) == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>[1 + (n % 4)]
TriRot(k) == IF k = 0 THEN <<1, 0, 1>> ELSE IF k = 1 THEN <<3, 4, 5>> ELSE <<3, -4, 5>>     \* cos, sin, den
U(c, qt, k) ==
  LET q == Quarter(qt)  t == TriRot(IF c.den = 1 THEN k ELSE 0)      \* keeps the powers of five low
      co == q[1]*t[1] - q[2]*t[2]  si == q[2]*t[1] + q[1]*t[2] IN
  [den |-> t[3]*c.den, M |-> TLCEval(MAdd(MScale(<<co*c.den, 0>>, MId(Len(c.M))), MScale(<<0, -si>>, c.M)))]
Heis(u, W) == TLCEval(MMul(MDag(u.M), MMul(W, u.M)))
Comm(P, Q) == TLCEval(MSub(MMul(P, Q), MMul(Q, P)))
\* |[W(t), V] psi|^2 with denominator den^4
Value(psi, u, V, W) == Norm2(MVec(Comm(Heis(u, W), V), psi))
Init == \E s \in SeedLo..SeedHi : \E L \in {2 + (Rnd(s, 1) % 2)} :
  /\ seed = s
  /\ \E c \in {Mirror(s, 100, L)} : \E psi \in {RndVec(s, 200, Pow(2, L), 1)} :
       /\ Norm2(psi) > 0
       /\ ini = [L |-> L, mirror |-> c, psi |-> psi, norm2 |-> Norm2(psi)]
  /\ ops = [V |-> Local(s, 300, L), W |-> Local(s, 400, L), n |-> 0]
  /\ turn = 0 /\ tri = 0 /\ out = <<>>
H(i) == Rnd(seed, 1000 + 50*Len(out) + i)
Look(qt, k) ==
  /\ Len(out) < Depth
  /\ turn' = qt /\ tri' = IF ini.mirror.den = 1 THEN k ELSE 0
  /\ \E u \in {U(ini.mirror, qt, k)} :
       out' = Append(out, [turn |-> qt, tri |-> tri', V |-> [at |-> ops.V.at, n |-> ops.V.n, op |-> ops.V.op], W |-> [at |-> ops.W.at, n |-> ops.W.n, op |-> ops.W.op],
                           value |-> Value(ini.psi, u, ops.V.M, ops.W.M), den |-> u.den*u.den*u.den*u.den])
  /\ UNCHANGED <<seed, ini, ops>>
Wait == H(1) % 3 = 0 /\ Look((turn + 1 + (H(2) % 3)) % 4, tri)
Slant == H(1) % 3 = 1 /\ Look(turn, (tri + 1 + (H(2) % 2)) % 3)
Other == /\ H(1) % 3 = 2 /\ ops.n < 2
         /\ ops' = [V |-> IF H(3) % 2 = 0 THEN ops.V ELSE Local(seed, 500 + 100*ops.n, ini.L),
                    W |-> IF H(3) % 2 = 0 THEN Local(seed, 600 + 100*ops.n, ini.L) ELSE ops.W, n |-> ops.n + 1]
         /\ \E u \in {U(ini.mirror, (turn + 1) % 4, tri)} :
              out' = Append(out, [turn |-> (turn + 1) % 4, tri |-> tri,
                                  V |-> [at |-> ops'.V.at, n |-> ops'.V.n, op |-> ops'.V.op], W |-> [at |-> ops'.W.at, n |-> ops'.W.n, op |-> ops'.W.op],
                                  value |-> Value(ini.psi, u, ops'.V.M, ops'.W.M), den |-> u.den*u.den*u.den*u.den])
         /\ Len(out) < Depth
         /\ turn' = (turn + 1) % 4
         /\ UNCHANGED <<seed, ini, tri>>
Again == /\ H(1) % 3 = 2 /\ ops.n >= 2
         /\ Look((turn + 1) % 4, (tri + 1) % 3)
Next == \/ Wait
        \/ Slant
        \/ Other
        \/ Again
Spec == Init /\ [][Next]_vars
(* ------------------------- checked on the model ------------------------- *)
Unitary == \A u \in {U(ini.mirror, turn, tri)} : MMul(MDag(u.M), u.M) = MScale(<<u.den*u.den, 0>>, MId(Len(u.M)))
\* operators on different sites commute to begin with, and after half turns
Causal == \A k \in DOMAIN out : LET o == out[k] IN
  /\ o.value >= 0
  /\ (o.tri = 0 /\ o.turn % 2 = 0 /\ (o.V.at + o.V.n <= o.W.at \/ o.W.at + o.W.n <= o.V.at)) => o.value = 0
\* it is what -<C^2> says: C is antihermitian
Same == (out # <<>>) => \A u \in {U(ini.mirror, turn, tri)} :
  \A C \in {Comm(Heis(u, ops.W.M), ops.V.M)} : C = MScale(<<-1, 0>>, MDag(C))
EmitAtEnd == Len(out) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, out |-> out])>>)
=============================================================================
