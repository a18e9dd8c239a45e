------------------------------ MODULE ManyBody ------------------------------
(***************************************************************************)
(* Operators of single spins inside a chain, and the chains built of them. *)
(* A word of operators acts on a configuration of up (0) and down (1)      *)
(* spins: flips, signs and phases are followed one at a time.  The         *)
(* anisotropic Heisenberg chain and the Ising chain are given by what they *)
(* do to configurations; they must be the sum of their neighbouring terms, *)
(* and conserve what they conserve.                                        *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, ini, conf, coef, word
vars == <<seed, ini, conf, coef, word>>
Names == <<"Sx", "Sy", "Sz", "Sp", "Sm">>
\* configurations are numbered with the first spin most significant
Num(b) == FoldLeft(LAMBDA a, x : 2*a + x, 0, b)
Bits(n, N) == TLCEval([k \in 1..N |-> (n \div Pow(2, N-k)) % 2])
Flip(b, i) == [b EXCEPT ![i] = 1 - @]
\* what an operator does to spin i: the new configuration and the factor
Act(o, b, i) ==
  CASE o = "Sx" -> <<Flip(b, i), C1>>
    [] o = "Sy" -> <<Flip(b, i), IF b[i] = 0 THEN CI ELSE CNeg(CI)>>
    [] o = "Sz" -> <<b, IF b[i] = 0 THEN C1 ELSE CNeg(C1)>>
    [] o = "Sp" -> <<Flip(b, i), IF b[i] = 1 THEN C1 ELSE C0>>
    [] o = "Sm" -> <<Flip(b, i), IF b[i] = 0 THEN C1 ELSE C0>>
Sg(x) == 1 - 2*x
Ups(b) == FoldLeft(LAMBDA a, x : a + Sg(x), 0, b)
\* the chains (times 2), as matrices over configurations
Heis(p, N) == TLCEval([r \in 1..Pow(2, N) |-> [q \in 1..Pow(2, N) |->
  LET a == Bits(r-1, N)  b == Bits(q-1, N)
      diag == SumSeq(TLCEval([i \in 1..(N-1) |-> 2*p.Jz*Sg(b[i])*Sg(b[i+1])])) - 2*p.h*Ups(b)
      swapped(i) == b[i] # b[i+1] /\ a = [b EXCEPT ![i] = b[i+1], ![i+1] = b[i]] IN
  <<(IF a = b THEN diag ELSE 0) + SumSeq(TLCEval([i \in 1..(N-1) |-> IF swapped(i) THEN p.J ELSE 0])), 0>>]])
Ising(p, N, ends) == TLCEval([r \in 1..Pow(2, N) |-> [q \in 1..Pow(2, N) |->
  LET a == Bits(r-1, N)  b == Bits(q-1, N)
      diag == SumSeq(TLCEval([i \in 1..(N-1) |-> -2*p.J*Sg(b[i])*Sg(b[i+1])]))
      w(i) == IF ends = "whole" \/ (i > 1 /\ i < N) THEN 2 ELSE 1 IN
  <<(IF a = b THEN diag ELSE 0) + SumSeq(TLCEval([i \in 1..N |-> IF a = Flip(b, i) THEN -w(i)*p.g ELSE 0])), 0>>]])
Embed(M, k, n, N) == MKron(MKron(MId(Pow(2, k)), M), MId(Pow(2, N-k-n)))
Total(ts, N) == LET S[k \in 1..Len(ts)] == IF k = 1 THEN Embed(ts[1], 0, 2, N) ELSE MAdd(S[k-1], Embed(ts[k], k-1, 2, N)) IN S[Len(ts)]
Up == <<<<C0, C1>>, <<C0, C0>>>>
Dn == MDag(Up)
R(k, M) == MScale(<<k, 0>>, M)
HeisTerm(p, last) == MAdd(MAdd(R(p.J, MAdd(MKron(Up, Dn), MKron(Dn, Up))), R(2*p.Jz, MKron(Z, Z))),
                          R(-2*p.h, IF last THEN MAdd(MKron(Z, I2), MKron(I2, Z)) ELSE MKron(Z, I2)))
IsingTerm(p, last) == MAdd(R(-2*p.J, MKron(Z, Z)), R(-2*p.g, IF last THEN MAdd(MKron(X, I2), MKron(I2, X)) ELSE MKron(X, I2)))
HalfTerm(p) == MAdd(R(-2*p.J, MKron(Z, Z)), R(-p.g, MAdd(MKron(X, I2), MKron(I2, X))))

Init == \E s \in SeedLo..SeedHi : \E N \in {2 + (Rnd(s, 1) % 3)} :
  /\ seed = s
  /\ \E p \in {[h |-> RndIn(s, 2, -3, 3), J |-> RndIn(s, 3, -3, 3), Jz |-> RndIn(s, 4, -3, 3), g |-> RndIn(s, 5, -3, 3)]} :
       ini = [N |-> N, p |-> p, start |-> Rnd(s, 6) % Pow(2, N), heis |-> Heis(p, N), ising |-> Ising(p, N, "whole"), half |-> Ising(p, N, "half")]
  /\ conf = Bits(Rnd(s, 6) % Pow(2, N), N)
  /\ coef = C1 /\ word = <<>>
H(i) == Rnd(seed, 100 + 10*Len(word) + i)
Apply(o) ==
  /\ Len(word) < Depth
  /\ o = Names[1 + (H(1) % 5)]
  /\ \E i \in {1 + (H(2) % ini.N)} : \E a \in {Act(o, conf, i)} :
       /\ conf' = a[1]
       /\ coef' = CMul(a[2], coef)
       /\ word' = Append(word, [op |-> o, at |-> i-1, num |-> Num(a[1]), coef |-> CMul(a[2], coef)])
  /\ UNCHANGED <<seed, ini>>
Next == \/ Apply("Sx")
        \/ Apply("Sy")
        \/ Apply("Sz")
        \/ Apply("Sp")
        \/ Apply("Sm")
Spec == Init /\ [][Next]_vars
(* ------------------------- checked on the model ------------------------- *)
Sums == word = <<>> => \A c \in {ini} : \A N \in {ini.N} :
  /\ c.heis = Total(TLCEval([k \in 1..(N-1) |-> HeisTerm(c.p, k = N-1)]), N)
  /\ c.ising = Total(TLCEval([k \in 1..(N-1) |-> IsingTerm(c.p, k = N-1)]), N)
  /\ c.half = Total(TLCEval([k \in 1..(N-1) |-> HalfTerm(c.p)]), N)
Conserved == word = <<>> => \A c \in {ini} : \A N \in {ini.N} :
  /\ IsHermitian(c.heis) /\ IsHermitian(c.ising)
  /\ \A r, q \in 1..Pow(2, N) :
       /\ ~CZero(c.heis[r][q]) => Ups(Bits(r-1, N)) = Ups(Bits(q-1, N))
       /\ c.ising[r][q] = c.ising[Pow(2, N)+1-r][Pow(2, N)+1-q]
\* units only, and once nothing is left it stays so
Units == CAbs2(coef) \in {0, 1}
Dead == [][CZero(coef) => CZero(coef')]_vars
EmitAtEnd == Len(word) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, word |-> word])>>)
=============================================================================
