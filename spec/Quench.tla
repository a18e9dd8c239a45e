------------------------------- MODULE Quench --------------------------------
(***************************************************************************)
(* Uniform infinite chains evolving in time along orbits that are known    *)
(* exactly.  V is a Hermitian involution of one site, chi a product state. *)
(*   "ising": the state  prod_i exp(-i th V_i V_i+1) exp(-i ph V_i) chi    *)
(*            has bond dimension two at every th: the evolution under      *)
(*            J V V + h V stays in the manifold and only moves the angles  *)
(*   "mean":  bond dimension one; the projected evolution under the same   *)
(*            terms turns every site about V, with <V> conserved.          *)
(* Angles are kept as Gaussian integers c + i s (of any length), composed  *)
(* by multiplication, so that every expectation value is an exact          *)
(* rational at the end of every run.                                       *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, kind, th, ph, hist, ini
vars == <<seed, kind, th, ph, hist, ini>>

Frac(n, m) == LET g == Gcd(Abs(n), m) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, m \div g>>
Rn(s, i, n) == Rnd(s, i) % n
C_1 == <<-1, 0>>
CIm == <<0, -1>>
Involutions(d) == IF d = 2 THEN << X, Y, Z >>
  ELSE << << <<C1, C0, C0>>, <<C0, C1, C0>>, <<C0, C0, C_1>> >>,
          << <<C_1, C0, C0>>, <<C0, C1, C0>>, <<C0, C0, C_1>> >>,
          << <<C0, CI, C0>>, <<CIm, C0, C0>>, <<C0, C0, C1>> >>,
          << <<C_1, C0, C0>>, <<C0, C0, C1>>, <<C0, C1, C0>> >> >>

\* ------------------- expectation values in the rotated state --------------
\* conjugation of an operator K by exp(-i a W), W an involution, a the angle of r
Turn(K, W, r) == LET c == r[1]  s == r[2] IN
   MAdd(MAdd(MScale(<<c*c, 0>>, K), MScale(<<s*s, 0>>, MMul(W, MMul(K, W)))),
        MScale(<<0, c*s>>, MSub(MMul(W, K), MMul(K, W))))
\* the bond between a site of K, on which the involution is W, and a neighbour in chi:
\* the neighbour's V has the values N, v = <chi|V|chi>
Bond(K, W, r, N, v) == LET c == r[1]  s == r[2] IN
   MAdd(MScale(<<N, 0>>, MAdd(MScale(<<c*c, 0>>, K), MScale(<<s*s, 0>>, MMul(W, MMul(K, W))))),
        MScale(<<0, c*s*v>>, MSub(MMul(W, K), MMul(K, W))))
Val(chi, V) == Inner(chi, MVec(V, chi))[1]
N2(r) == r[1]*r[1] + r[2]*r[2]
\* matrices over a denominator, in lowest terms
RedM(K, m) == LET g == FoldLeft(LAMBDA x, row : Gcd(x, Content(row)), m, K) IN
   [K |-> IF g <= 1 THEN K ELSE TLCEval([i \in 1..Len(K) |-> TLCEval([j \in 1..Len(K) |-> <<K[i][j][1] \div g, K[i][j][2] \div g>>])]),
    m |-> IF g <= 1 THEN m ELSE m \div g]
Roomy(N, t, f, k) == LET x == N2(t) y == N2(f) IN
   /\ x <= 1700 /\ y <= 300 /\ N <= 6
   /\ IF k = 1 THEN x*x < 35000000 \div (y * N*N*N)
      ELSE x*x < ((16000000 \div (y*y)) \div (N*N*N*N)) \div x
One(chi, V, t, f, O) == LET N == Norm2(chi)  v == Val(chi, V)
                            K == TLCEval(RedM(Turn(O, V, f), N2(f)))
                            K1 == TLCEval(RedM(Bond(K.K, V, t, N, v), K.m*N*N2(t)))
                            K2 == TLCEval(RedM(Bond(K1.K, V, t, N, v), K1.m*N*N2(t))) IN
   Frac(Inner(chi, MVec(K2.K, chi))[1], N*K2.m)
Two(chi, V, t, f, h) == LET N == Norm2(chi)  v == Val(chi, V)  d == Len(chi)
                            L == TLCEval(MKron(V, MId(d)))  R == TLCEval(MKron(MId(d), V))
                            Ka == TLCEval(RedM(Turn(h, L, f), N2(f)))
                            Kb == TLCEval(RedM(Turn(Ka.K, R, f), Ka.m*N2(f)))
                            K == TLCEval(RedM(Turn(Kb.K, TLCEval(MKron(V, V)), t), Kb.m*N2(t)))
                            K1 == TLCEval(RedM(Bond(K.K, L, t, N, v), K.m*N*N2(t)))
                            K2 == TLCEval(RedM(Bond(K1.K, R, t, N, v), K1.m*N*N2(t)))
                            cc == TLCEval(Kron(chi, chi)) IN
   Frac(Inner(cc, MVec(K2.K, cc))[1], N*N*K2.m)
\* the same by brute force, three sites
Direct(chi, V, t, f, O) ==
   LET d == Len(chi)  I == MId(d)
       U2 == MSub(MScale(<<t[1], 0>>, MId(d*d)), MScale(<<0, t[2]>>, MKron(V, V)))
       U1 == MSub(MScale(<<f[1], 0>>, I), MScale(<<0, f[2]>>, V))
       w == Kron(chi, Kron(MVec(U1, chi), chi))
       z == TLCEval(MVec(MKron(U2, I), MVec(MKron(I, U2), w))) IN
   Frac(Inner(z, MVec(MKron(I, MKron(O, I)), z))[1], Norm2(z))

(* ----------------------------- the transitions --------------------------- *)
Rotors == << <<2, 1>>, <<3, 1>>, <<3, -1>>, <<3, 2>>, <<2, -1>>, <<4, 1>> >>
Fields == << <<1, 0>>, <<1, 0>>, <<2, 1>>, <<3, 1>>, <<3, -1>> >>
Starts == << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, -1>> >>
Still == <<1, 0>>
H(n, i) == Rnd(seed, 7000 + 53*n + i)
Values(t, f, o) == [E1 |-> TLCEval([q \in 1..3 |-> One(o.chi, o.V, t, f, o.O[q])]),
                    E2 |-> IF o.d = 2 /\ Roomy(Norm2(o.chi), t, f, 2) THEN Two(o.chi, o.V, t, f, o.h) ELSE <<0, 0>>]
Run(how) ==
  LET n == Len(hist) IN
  /\ n < Depth
  /\ how = IF H(n, 0) % 3 = 0 THEN "euler" ELSE "rk4"
  /\ \E r \in {IF kind = "mean" THEN Still ELSE Pick(seed, 7010 + 53*n, Rotors)} :
     \E f \in {IF kind = "mean" THEN Pick(seed, 7011 + 53*n, Rotors) ELSE Pick(seed, 7012 + 53*n, Fields)} :
     \E t2 \in {Primitive(<<CMul(th, r)>>)[1]} : \E f2 \in {Primitive(<<CMul(ph, f)>>)[1]} :
       /\ Roomy(Norm2(ini.chi), t2, f2, 1)
       /\ th' = t2 /\ ph' = f2
       /\ \E vals \in {TLCEval(Values(t2, f2, ini))} :
            hist' = Append(hist, [op |-> how, r |-> r, f |-> f, th |-> t2, ph |-> f2, vals |-> vals])
  /\ UNCHANGED <<seed, kind, ini>>
Next == \/ Run("euler")
        \/ Run("rk4")
Init == /\ seed \in SeedLo..SeedHi /\ hist = <<>> /\ ph = Still
        /\ kind = IF Rn(seed, 1, 4) = 0 THEN "mean" ELSE "ising"
        /\ \E d \in {IF Rn(seed, 2, 4) = 0 THEN 3 ELSE 2} :
           \E V \in {Pick(seed, 3, Involutions(d))} :
           \E c0 \in {RndVec(seed, 10, d, 1)} :
           \E c1 \in {TLCEval([k \in 1..d |-> IF k = 1 THEN C1 ELSE IF k = 2 THEN CI ELSE C0])} :
           \E chi \in {IF Rank(<<c0, MVec(V, c0)>>) = 2 /\ (d = 2 \/ Norm2(c0) <= 3) THEN c0
                       ELSE IF Rank(<<c1, MVec(V, c1)>>) = 2 THEN c1 ELSE TLCEval([k \in 1..d |-> C1])} :
           \E t0 \in {IF kind = "mean" THEN Still ELSE IF d = 3 THEN <<1, 1>> ELSE Pick(seed, 4, Starts)} :
             /\ th = t0
             /\ \E o \in {[d |-> d, V |-> V, chi |-> chi, th |-> t0, v |-> Frac(Val(chi, V), Norm2(chi)),
                          O |-> TLCEval([q \in 1..3 |-> RndHerm(seed, 300 + 200*q, d, 1)]), h |-> RndHerm(seed, 2000, d*d, 1)]} :
                  ini = [d |-> o.d, V |-> o.V, chi |-> o.chi, th |-> o.th, v |-> o.v, O |-> o.O, h |-> o.h,
                         vals |-> TLCEval(Values(t0, Still, o))]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
RoomForTwo(o, t, f) == o.d = 2 /\ Roomy(Norm2(o.chi), t, f, 2)
TypeOK == /\ MMul(ini.V, ini.V) = MId(ini.d) /\ IsHermitian(ini.V)
          /\ Norm2(ini.chi) > 0 /\ N2(th) > 0 /\ N2(ph) > 0
\* a value is a value: one for the identity
Normed == \A o \in {ini} : \A t \in {th} : \A f \in {ph} : One(o.chi, o.V, t, f, MId(o.d)) = <<1, 1>>
\* <V> and, in the Ising case, <V V> never change
Conserved == \A o \in {ini} : \A t \in {th} : \A f \in {ph} :
   /\ One(o.chi, o.V, t, f, o.V) = o.v
   /\ RoomForTwo(o, t, f) => Two(o.chi, o.V, t, f, MKron(o.V, o.V)) = Frac(o.v[1]*o.v[1], o.v[2]*o.v[2])
\* the local formula is the brute force one
Local == \A o \in {ini} : \A t \in {th} : \A f \in {ph} :
   (o.d = 2 /\ N2(t) <= 26 /\ N2(f) <= 10) => \A q \in 1..2 : One(o.chi, o.V, t, f, o.O[q]) = Direct(o.chi, o.V, t, f, o.O[q])
\* one-site operators inside two-site ones, on either site
Marginal == \A o \in {ini} : \A t \in {th} : \A f \in {ph} : RoomForTwo(o, t, f) =>
   /\ Two(o.chi, o.V, t, f, MKron(o.O[1], MId(2))) = One(o.chi, o.V, t, f, o.O[1])
   /\ Two(o.chi, o.V, t, f, MKron(MId(2), o.O[1])) = One(o.chi, o.V, t, f, o.O[1])
\* running back undoes a run
Back == hist # <<>> => \A o \in {ini} : \A t \in {th} : \A f \in {ph} : \A e \in {hist[Len(hist)]} :
   \A was \in {IF Len(hist) = 1 THEN ini.vals.E1[1] ELSE hist[Len(hist)-1].vals.E1[1]} :
     \A t0 \in {Primitive(<<CMul(t, CConj(e.r))>>)[1]} : \A f0 \in {Primitive(<<CMul(f, CConj(e.f))>>)[1]} :
        One(o.chi, o.V, t0, f0, o.O[1]) = was
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, kind |-> kind, ini |-> ini, hist |-> hist])>>)
=============================================================================
