------------------------------- MODULE Spins --------------------------------
(***************************************************************************)
(* Spin operators on a chain of equal spins.  With e_k the basis in which  *)
(*   S+ e_k = k e_(k-1),   S- e_k = (2S-k) e_(k+1),   2Sz e_k = (2S-2k) e_k *)
(* every operator has integer entries; e_k is the k-th standard basis      *)
(* vector (highest weight first) divided by sqrt(binomial(2S, k)).  The    *)
(* state is a vector over the labels of the chain, first site most         *)
(* significant, and the transitions let operators act on named sites.      *)
(***************************************************************************)
EXTENDS MPS, Json, SequencesExt
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, two, len, vec, hist, ini          \* two = 2S
vars == <<seed, two, len, vec, hist, ini>>
Rn(s, i, n) == Rnd(s, i) % n

\* entries in the basis e_k, doubled for x, y and z
Raise(s) == Mat(s+1, s+1, LAMBDA i, j : IF i = j-1 THEN <<j-1, 0>> ELSE C0)
Lower(s) == Mat(s+1, s+1, LAMBDA i, j : IF i = j+1 THEN <<s-(j-1), 0>> ELSE C0)
TwoX(s) == MAdd(Raise(s), Lower(s))
TwoY(s) == MScale(<<0, -1>>, MSub(Raise(s), Lower(s)))
TwoZ(s) == Mat(s+1, s+1, LAMBDA i, j : IF i = j THEN <<s - 2*(i-1), 0>> ELSE C0)
Op(s, o) == CASE o = "+" -> Raise(s) [] o = "-" -> Lower(s) [] o = "x" -> TwoX(s) [] o = "y" -> TwoY(s) [] o = "z" -> TwoZ(s)
On(v, s, n, i, o) == ApplyBlock(v, s+1, n, i-1, 1, Op(s, o))

(* ------------------------------ transitions ------------------------------ *)
H(n, i) == Rnd(seed, 7000 + 53*n + i)
Big(v) == \E k \in 1..Len(v) : Abs(v[k][1]) > 2000000 \/ Abs(v[k][2]) > 2000000
Act == LET t == Len(hist) IN
  /\ t < Depth
  /\ ~Big(vec)
  /\ \E v \in {vec} : \E s \in {two} : \E n \in {len} :
     \E o \in {<<"+", "-", "x", "y", "z">>[1 + (H(t, 1) % 5)]} : \E i \in {1 + (H(t, 2) % n)} :
     \E r \in {On(v, s, n, i, o)} :
       /\ vec' = r
       /\ hist' = Append(hist, [op |-> o, i |-> i, vec |-> r])
  /\ UNCHANGED <<seed, two, len, ini>>
Next == Act
\* labels: a basis state, or a random vector
Init == /\ seed \in SeedLo..SeedHi /\ hist = <<>>
        /\ \E s \in {1 + Rn(seed, 1, 11)} :
           \E n \in {IF s = 1 THEN 1 + Rn(seed, 2, 5) ELSE IF s = 2 THEN 1 + Rn(seed, 2, 4) ELSE IF s = 3 THEN 1 + Rn(seed, 2, 3) ELSE IF s > 7 THEN 1 ELSE 1 + Rn(seed, 2, 2)} :
           \E N \in {Pow(s+1, n)} :
           \E v \in {IF Rn(seed, 3, 2) = 0 THEN LET b == 1 + Rn(seed, 4, N) IN TLCEval([k \in 1..N |-> IF k = b THEN C1 ELSE C0]) ELSE RndVec(seed, 200, N, 2)} :
             /\ two = s /\ len = n /\ vec = v
             /\ ini = [two |-> s, len |-> n, vec |-> v]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
\* angular momentum at every site of the state reached, and different sites commute
Comm(v, s, n, i, a, j, b) == VSub(On(On(v, s, n, j, b), s, n, i, a), On(On(v, s, n, i, a), s, n, j, b))
Algebra == Big(vec) \/ \A v \in {vec} : \A s \in {two} : \A n \in {len} : \A i \in 1..n :
  /\ Comm(v, s, n, i, "x", i, "y") = VScale(<<0, 2>>, On(v, s, n, i, "z"))
  /\ Comm(v, s, n, i, "y", i, "z") = VScale(<<0, 2>>, On(v, s, n, i, "x"))
  /\ Comm(v, s, n, i, "z", i, "x") = VScale(<<0, 2>>, On(v, s, n, i, "y"))
  /\ Comm(v, s, n, i, "+", i, "-") = On(v, s, n, i, "z")
  /\ Comm(v, s, n, i, "z", i, "+") = VScale(<<2, 0>>, On(v, s, n, i, "+"))
  /\ Comm(v, s, n, i, "z", i, "-") = VScale(<<-2, 0>>, On(v, s, n, i, "-"))
  /\ i < n => \A a, b \in {"+", "y", "z"} : IsZeroVec(Comm(v, s, n, i, a, i+1, b))
Casimir == Big(vec) \/ \A v \in {vec} : \A s \in {two} : \A n \in {len} : \A i \in 1..n :
  VAdd(On(On(v, s, n, i, "x"), s, n, i, "x"), VAdd(On(On(v, s, n, i, "y"), s, n, i, "y"), On(On(v, s, n, i, "z"), s, n, i, "z")))
    = VScale(<<s*(s+2), 0>>, v)
\* raising more often than there are rungs leaves nothing
RECURSIVE Often(_, _)
Often(M, k) == IF k = 1 THEN M ELSE MMul(M, Often(M, k-1))
Ends == hist = <<>> => \A s \in {two} : /\ Often(Raise(s), s+1) = MZero(s+1, s+1)
                                        /\ Often(Lower(s), s+1) = MZero(s+1, s+1)
                                        /\ Often(Raise(s), s) # MZero(s+1, s+1)
\* in this basis <S+> and <S-> are adjoint once the weights binomial(2S, k) are put back
RECURSIVE Binomial(_, _)
Binomial(n, k) == IF k = 0 THEN 1 ELSE (Binomial(n, k-1) * (n-k+1)) \div k
Adjoint == hist = <<>> => \A s \in {two} : \A p \in {Raise(s)} : \A m \in {Lower(s)} : \A i, j \in 1..(s+1) :
   p[i][j][1] * Binomial(s, j-1) = m[j][i][1] * Binomial(s, i-1)
Count == Len(vec) = Pow(two+1, len)
Emit == Len(hist) = Depth \/ Big(vec)
EmitAtEnd == Emit => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, hist |-> hist])>>)
=============================================================================
