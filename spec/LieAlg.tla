------------------------------- MODULE LieAlg -------------------------------
(***************************************************************************)
(* Unitaries by their generators.  A traceless Hermitian matrix is a point *)
(* in the span of the generators of SU(N); exponentials of commuting Pauli *)
(* strings with Pythagorean angles are exact fractions.  The state is a    *)
(* list of strings with angles together with the unitary (numerator and    *)
(* denominator); transitions turn by one more string that commutes with    *)
(* the earlier ones, add a qubit, and ask for coordinates.                 *)
(***************************************************************************)
EXTENDS Flat, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, q, turns, num, den, hist
vars == <<seed, q, turns, num, den, hist>>
Rn(s, i, n) == Rnd(s, i) % n
H(n, i) == Rnd(seed, 7000 + 53*n + i)

(* ------------------------------ generators ------------------------------- *)
Unit(N, a, b, c) == Mat(N, N, LAMBDA i, j : IF i = a /\ j = b THEN c ELSE IF i = b /\ j = a THEN CConj(c) ELSE C0)
Diagonal(N, a) == Mat(N, N, LAMBDA i, j : IF i # j THEN C0 ELSE IF i <= a THEN C1 ELSE IF i = a+1 THEN <<-a, 0>> ELSE C0)
Pairs(N) == TLCEval(SelectSeq([k \in 1..(N*N) |-> <<1 + ((k-1) \div N), 1 + ((k-1) % N)>>], LAMBDA p : p[1] > p[2]))
\* [m, n]: the generator is m*sqrt(2/n), n = tr m^2
Gens(N) == LET ps == Pairs(N)  k == Len(ps) IN TLCEval([t \in 1..(N*N - 1) |->
   IF t <= k THEN [m |-> Unit(N, ps[t][1], ps[t][2], C1), n |-> 2]
   ELSE IF t <= 2*k THEN [m |-> Unit(N, ps[t-k][1], ps[t-k][2], <<0, -1>>), n |-> 2]
   ELSE [m |-> Diagonal(N, t - 2*k), n |-> (t-2*k)*(t-2*k+1)]])
\* tr(A m) for every generator: the coordinate is c*sqrt(2/n)/2
Coordinates(A_) == LET A == TLCEval(A_)  g == Gens(Len(A)) IN TLCEval([t \in 1..Len(g) |-> MTr(MMul(A, g[t].m))[1]])
RndTraceless(s, i, N) == LET A == TLCEval(RndHerm(s, i, N, 2)) IN
  Mat(N, N, LAMBDA a, b : IF a = N /\ b = N THEN CNeg(CSumSeq(TLCEval([k \in 1..(N-1) |-> A[k][k]]))) ELSE A[a][b])

(* ----------------------------- Pauli strings ----------------------------- *)
Pauli(a) == CASE a = 0 -> I2 [] a = 1 -> X [] a = 2 -> Y [] a = 3 -> Z
RECURSIVE StringM(_)
StringM(p) == IF Len(p) = 1 THEN Pauli(p[1]) ELSE MKron(StringM(SubSeq(p, 1, Len(p)-1)), Pauli(p[Len(p)]))
Commute(p, r) == Cardinality({k \in 1..Len(p) : p[k] # 0 /\ r[k] # 0 /\ p[k] # r[k]}) % 2 = 0
Angles == << <<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<0, 1, 1>>, <<4, -3, 5>>, <<12, -5, 13>>, <<3, -4, 5>>, <<-3, 4, 5>> >>
\* cos - i sin P, over the denominator
Turn(p, a) == MSub(MScale(<<a[1], 0>>, MId(Pow(2, Len(p)))), MScale(<<0, a[2]>>, StringM(p)))
\* new qubit: after the first `at' qubits
Insert(A_, n, at) == LET A == TLCEval(A_)  big == TLCEval([k \in 1..(n+1) |-> 2])  small == TLCEval([k \in 1..n |-> 2])
    cut(ds) == TLCEval([k \in 1..n |-> IF k <= at THEN ds[k] ELSE ds[k+1]]) IN
  Mat(Pow(2, n+1), Pow(2, n+1), LAMBDA i, j : LET x == Digits(i-1, big)  y == Digits(j-1, big) IN
     IF x[at+1] # y[at+1] THEN C0 ELSE A[1 + Pos(cut(x), small)][1 + Pos(cut(y), small)])

(* ------------------------------ transitions ------------------------------ *)
Kind(n) == Pick(seed, 7000 + 53*n, <<"turn", "turn", "turn", "turn", "coord", "insert", "insert", "symm", "local">>)
Rotate == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "turn" /\ den < 2000
  /\ \E p \in {TLCEval([k \in 1..q |-> H(t, 10+k) % 4])} : \E a \in {Pick(seed, 800 + t, Angles)} :
       /\ \E k \in 1..q : p[k] # 0
       /\ \A r \in {turns[k].p : k \in 1..Len(turns)} : Commute(p, r)
       /\ \E U \in {MMul(Turn(p, a), num)} :
            /\ num' = U /\ den' = den * a[3]
            /\ turns' = Append(turns, [p |-> p, a |-> a])
            /\ hist' = Append(hist, [op |-> "turn", p |-> p, a |-> a, P |-> StringM(p), num |-> U, den |-> den * a[3]])
            /\ UNCHANGED <<seed, q>>
Coord == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "coord"
  /\ \E N \in {2 + (H(t, 1) % 4)} : \E A \in {RndTraceless(seed, 500 + 60*t, N)} :
       /\ hist' = Append(hist, [op |-> "coord", N |-> N, A |-> A, gens |-> Gens(N), c |-> Coordinates(A)])
       /\ UNCHANGED <<seed, q, turns, num, den>>
\* one more qubit, and the same unitary on the others
Add == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "insert" /\ q <= 2 /\ Len(turns) > 0
  /\ \E where \in {<<"left", "mid", "right">>[1 + (H(t, 1) % 3)]} :
     \E at \in {IF where = "left" THEN 0 ELSE IF where = "right" THEN q ELSE q-1} :
     \E U \in {Insert(num, q, at)} :
       \* the strings grow by an identity
       /\ turns' = TLCEval([k \in 1..Len(turns) |-> [turns[k] EXCEPT !.p = TLCEval([z \in 1..(q+1) |-> IF z <= at THEN turns[k].p[z] ELSE IF z = at+1 THEN 0 ELSE turns[k].p[z-1]])]])
       /\ num' = U /\ q' = q+1
       /\ hist' = Append(hist, [op |-> "insert", where |-> where, num |-> U, den |-> den])
       /\ UNCHANGED <<seed, den>>
\* a generator symmetric under exchange of two qubits
Symmetric == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "symm"
  /\ \E x \in {H(t, 1) % 4} : \E y \in {H(t, 2) % 4} : \E a \in {Pick(seed, 800 + t, Angles)} :
     \E p \in {<<x, y>>} : \E r \in {<<y, x>>} :
       /\ x + y > 0
       /\ hist' = Append(hist, [op |-> "symm", a |-> a,
             G |-> IF x = y THEN StringM(p) ELSE MAdd(StringM(p), StringM(r)),
             num |-> IF x = y THEN Turn(p, a) ELSE MMul(Turn(p, a), Turn(r, a)), den |-> IF x = y THEN a[3] ELSE a[3]*a[3]])
       /\ UNCHANGED <<seed, q, turns, num, den>>
\* rotation of one qubit about an axis of integer length: exp(-i theta n.S), cos and sin of theta/2
Axes == << <<1, 2, 2, 3>>, <<2, 3, 6, 7>>, <<0, 0, 1, 1>>, <<4, 0, 3, 5>>, <<-2, 1, 2, 3>>, <<1, -4, 8, 9>>, <<0, 1, 0, 1>>, <<1, 0, 0, 1>> >>
Local == LET t == Len(hist) IN
  /\ t < Depth /\ Kind(t) = "local"
  /\ \E ax \in {Pick(seed, 900 + t, Axes)} : \E a \in {Pick(seed, 800 + t, Angles)} :
     \E nS \in {MAdd(MScale(<<ax[1], 0>>, X), MAdd(MScale(<<ax[2], 0>>, Y), MScale(<<ax[3], 0>>, Z)))} :
     \E U \in {MSub(MScale(<<a[1]*ax[4], 0>>, I2), MScale(<<0, a[2]>>, nS))} :
       /\ MMul(nS, nS) = MScale(<<ax[4]*ax[4], 0>>, I2)
       /\ hist' = Append(hist, [op |-> "local", ax |-> ax, a |-> a, first |-> MKron(U, I2), second |-> MKron(I2, U), den |-> a[3]*ax[4]])
       /\ UNCHANGED <<seed, q, turns, num, den>>
Idle == LET t == Len(hist) IN
  /\ t < Depth
  /\ \/ Kind(t) \in {"turn", "insert"}
     \/ (Kind(t) = "symm" /\ (H(t, 1) % 4) + (H(t, 2) % 4) = 0)
  /\ \/ Kind(t) = "symm"
     \/ Kind(t) = "insert" /\ ~(q <= 2 /\ Len(turns) > 0)
     \/ Kind(t) = "turn" /\ ~(den < 2000 /\ (\E k \in 1..q : H(t, 10+k) % 4 # 0) /\ \A r \in {turns[k].p : k \in 1..Len(turns)} : Commute(TLCEval([k \in 1..q |-> H(t, 10+k) % 4]), r))
  /\ hist' = Append(hist, [op |-> "none"])
  /\ UNCHANGED <<seed, q, turns, num, den>>
Next == \/ Rotate
        \/ Coord
        \/ Add
        \/ Symmetric
        \/ Local
        \/ Idle
Init == /\ seed \in SeedLo..SeedHi /\ hist = <<>> /\ turns = <<>> /\ den = 1
        /\ q = 1 + Rn(seed, 1, 3)
        /\ num = MId(Pow(2, 1 + Rn(seed, 1, 3)))
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
Unitary == \A U \in {num} : MMul(U, MDag(U)) = MScale(<<den*den, 0>>, MId(Len(U)))
Composed == \A U \in {num} : FoldLeft(LAMBDA A, t : MMul(Turn(t.p, t.a), A), MId(Pow(2, q)), turns) = U
Commuting == \A s, t \in {turns[k].p : k \in 1..Len(turns)} : Commute(s, t) /\ MMul(StringM(s), StringM(t)) = MMul(StringM(t), StringM(s))
\* the generators are orthogonal, and coordinates give the matrix back
Orthogonal == hist = <<>> => \A N \in {2 + Rn(seed, 1, 3)} : \A g \in {Gens(N)} :
   /\ Len(g) = N*N - 1
   /\ \A a \in 1..Len(g) : IsHermitian(g[a].m) /\ CZero(MTr(g[a].m))
   /\ \A a, b \in 1..Len(g) : MTr(MMul(g[a].m, g[b].m)) = IF a = b THEN <<g[a].n, 0>> ELSE C0
Spanning == hist # <<>> => \A h \in {hist[Len(hist)]} : h.op = "coord" =>
   MScale(<<60, 0>>, h.A) = FoldLeft(LAMBDA M, k : MAdd(M, MScale(<<(60*h.c[k]) \div h.gens[k].n, 0>>, h.gens[k].m)), MZero(h.N, h.N), [k \in 1..Len(h.gens) |-> k])
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, q |-> 1 + Rn(seed, 1, 3), hist |-> hist])>>)
=============================================================================
