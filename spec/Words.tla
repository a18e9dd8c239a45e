------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Long chains.  A state is a few words over the digits of the sites, with *)
(* a Gaussian integer to each: a function from a finite set of words.      *)
(* Operators rewrite words, so nothing grows with the dimension of the     *)
(* space and chains of a dozen sites are as exact as chains of three.      *)
(* Calls on one object (changes of form, one- and two-site operators, sums *)
(* with a second state, factors) are followed by everything one may ask.   *)
(***************************************************************************)
EXTENDS Gauss, FiniteSetsExt, Json
CONSTANTS SeedLo, SeedHi, MaxLen, Kinds
VARIABLES seed, ini, psi, hist
vars == <<seed, ini, psi, hist>>
\* what a user may be busy with (repeats make a call more frequent)
AnyCall   == <<"lcan", "rcan", "mcan", "lorth", "rorth", "morth", "copy", "pack", "apply", "gate", "add", "mul", "gate", "apply">>
Forms     == <<"lcan", "rcan", "mcan", "lorth", "rorth", "morth", "gate", "apply">>
GateCalls == <<"gate", "gate", "gate", "apply", "mcan", "rcan">>
Sums      == <<"add", "mul", "apply", "gate", "copy", "morth", "lcan">>
\* a word is a sequence of digits, site 0 first (so digit k is at k+1)
Val(w, d, ks) == FoldLeft(LAMBDA a, k : a*d + w[k+1], 0, ks)
\* the word with the digits at sites ks (a sequence) set to those of t
Put(w, d, ks, t) == TLCEval([x \in 1..Len(w) |->
  LET at == {q \in 1..Len(ks) : ks[q] = x-1} IN
  IF at = {} THEN w[x] ELSE LET q == CHOOSE q \in at : TRUE IN (t \div Pow(d, Len(ks)-q)) % d])
At(f, w) == IF w \in DOMAIN f THEN f[w] ELSE C0
Trim(f) == LET S == {w \in DOMAIN f : ~CZero(f[w])} IN TLCEval([w \in S |-> f[w]])
SumOver(S, F(_)) == FoldSet(LAMBDA w, a : CAdd(a, F(w)), C0, S)
\* operator M on the sites ks
On(f_, d, ks, M_) == LET f == TLCEval(f_)  M == TLCEval(M_)  n == Pow(d, Len(ks))
                         all == UNION {{Put(w, d, ks, t) : t \in 0..(n-1)} : w \in DOMAIN f} IN
  Trim(TLCEval([w \in all |-> CSumSeq(TLCEval([t \in 1..n |->
     IF CZero(M[Val(w, d, ks)+1][t]) THEN C0 ELSE CMul(M[Val(w, d, ks)+1][t], At(f, Put(w, d, ks, t-1)))]))]))
Plus(f, g) == Trim(TLCEval([w \in (DOMAIN f) \cup (DOMAIN g) |-> CAdd(At(f, w), At(g, w))]))
Times(z, f) == TLCEval([w \in DOMAIN f |-> CMul(z, f[w])])
Dot(f, g) == SumOver((DOMAIN f) \cap (DOMAIN g), LAMBDA w : CMul(CConj(f[w]), g[w]))
Size2(f) == Dot(f, f)[1]
Mean(f, d, ks, M) == Dot(f, On(f, d, ks, M))
\* reduced density matrix of the sites ks, not divided by the norm
Reduced(f, d, ks) == LET n == Pow(d, Len(ks)) IN
  Mat(n, n, LAMBDA r, c : SumOver({w \in DOMAIN f : Val(w, d, ks) = r-1}, LAMBDA w : CMul(f[w], CConj(At(f, Put(w, d, ks, c-1))))))
(* ------------------------------ materials ------------------------------- *)
RndWord(s, i, L, d) == TLCEval([k \in 1..L |-> Rnd(s, i + 3*k) % d])
Amp(s, i) == LET z == RndC(s, i, 2) IN IF CZero(z) THEN C1 ELSE z
\* words far apart, two opposite words, one excitation, one word, words that differ in a few places
Fam(s) == <<"far", "two", "single", "one", "near", "near">>[1 + (Rnd(s, 3) % 6)]
Listed(s, L, d, fam, n) ==
  LET base == RndWord(s, 40, L, d) IN
  CASE fam = "far"    -> TLCEval([x \in 1..n |-> RndWord(s, 100*x, L, d)])
    [] fam = "two"    -> <<base, TLCEval([k \in 1..L |-> (base[k] + 1) % d])>>
    [] fam = "single" -> TLCEval([x \in 1..L |-> [base EXCEPT ![x] = (@ + 1) % d]])
    [] fam = "one"    -> <<base>>
    [] OTHER          -> TLCEval([x \in 1..n |-> LET p == 1 + (Rnd(s, 200*x+1) % L)  q == 1 + (Rnd(s, 200*x+2) % L) IN
                                   [base EXCEPT ![p] = Rnd(s, 200*x+3) % d, ![q] = Rnd(s, 200*x+4) % d]])
Made(ws, s, i) == Trim(TLCEval([w \in Range(ws) |-> CSumSeq(TLCEval([x \in 1..Len(ws) |-> IF ws[x] = w THEN Amp(s, i + 5*x) ELSE C0]))]))
Terms(s, i, L, d, fam, n) == LET ws == TLCEval(Listed(s, L, d, fam, n)) IN
  TLCEval([x \in 1..Len(ws) |-> [w |-> ws[x], a |-> Amp(s, i + 5*x)]])
Of(ts) == Trim(TLCEval([w \in {ts[x].w : x \in 1..Len(ts)} |-> CSumSeq(TLCEval([x \in 1..Len(ts) |-> IF ts[x].w = w THEN ts[x].a ELSE C0]))]))
Turn(i) == LET p == i % 6 IN
  CASE p = 0 -> X [] p = 1 -> Y [] p = 2 -> Z [] p = 3 -> I2
    [] p = 4 -> <<<<C1, C0>>, <<C0, CI>>>>
    [] OTHER -> RealM(<<<<1, 1>>, <<1, -1>>>>)
Joint(i) == LET p == i % 4 IN
  CASE p = 0 -> RealM(<<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,0,1>>, <<0,0,1,0>>>>)
    [] p = 1 -> RealM(<<<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,-1>>>>)
    [] p = 2 -> <<<<C1,C0,C0,C0>>, <<C0,C0,CI,C0>>, <<C0,CI,C0,C0>>, <<C0,C0,C0,C1>>>>
    [] OTHER -> <<<<C1,C0,C0,C0>>, <<C0,C0,C0,C1>>, <<C0,C0,CI,C0>>, <<C0,C1,C0,C0>>>>

Init == \E s \in SeedLo..SeedHi : \E d \in {IF s % 4 = 1 THEN 3 ELSE IF s % 8 = 2 THEN 4 ELSE 2} :
        \E L \in {IF d = 2 THEN RndIn(s, 1, 7, MaxLen) ELSE IF d = 3 THEN RndIn(s, 1, 5, 7) ELSE RndIn(s, 1, 4, 6)} :
        \E ts \in {Terms(s, 1000, L, d, Fam(s), 2 + (Rnd(s, 4) % 8))} :
        \E us \in {Terms(s, 5000, L, d, IF s % 3 = 0 THEN Fam(s+1) ELSE "near", 1 + (Rnd(s, 5) % 3))} :
  /\ DOMAIN Of(ts) # {} /\ DOMAIN Of(us) # {}
  /\ seed = s
  /\ ini = [d |-> d, L |-> L, ts |-> ts, us |-> us, len |-> Rnd(s, 6) % 6]
  /\ psi = Of(ts)
  /\ hist = <<>>
H(i) == Rnd(seed, 20000 + 50*Len(hist) + i)
Fits(f) == /\ DOMAIN f # {} /\ Cardinality(DOMAIN f) <= 96
           /\ \A w \in DOMAIN f : Abs(f[w][1]) <= 60 /\ Abs(f[w][2]) <= 60
Show(f) == LET S == SetToSeq(DOMAIN f) IN TLCEval([x \in 1..Len(S) |-> [w |-> S[x], a |-> f[S[x]]]])
Do(kind, rec, f) == /\ psi' = f
                    /\ hist' = Append(hist, [op |-> kind, psi |-> Show(f)] @@ rec)
                    /\ UNCHANGED <<seed, ini>>
Wish == Kinds[1 + (H(0) % Len(Kinds))]
More == Len(hist) < ini.len
Same(kind) == Do(kind, [k |-> H(1) % ini.L], psi)
Reform == More /\ Wish \in {"lcan", "rcan", "mcan", "lorth", "rorth", "morth", "copy", "pack"} /\ Same(Wish)
Local == More /\ Wish = "apply" /\
  \E k \in {H(1) % ini.L} : \E M \in {RndM(seed, H(2) % 9999, ini.d, ini.d, 1)} : \E f \in {On(psi, ini.d, <<k>>, M)} :
    IF Fits(f) THEN Do("apply", [k |-> k, M |-> M], f) ELSE Same("copy")
Gate == More /\ Wish = "gate" /\ IF ini.d # 2 THEN Same("lcan") ELSE
  \E i \in {H(1) % (ini.L - 1)} : \E j \in {i + 1 + (H(2) % (ini.L - 1 - i))} :
  \E M \in {MMul(MKron(Turn(H(3)), Turn(H(4))), MMul(Joint(H(5)), MKron(Turn(H(6) % 5), Turn(H(7) % 5))))} :
  \E f \in {On(psi, 2, <<i, j>>, M)} :
    IF Fits(f) THEN Do("gate", [i |-> i, j |-> j, M |-> M, which |-> IF H(8) % 2 = 0 THEN "l" ELSE "r"], f) ELSE Same("rcan")
Sum == More /\ Wish = "add" /\
  \E f \in {Plus(psi, Of(ini.us))} : IF Fits(f) THEN Do("add", [k |-> 0], f) ELSE Same("copy")
Factor == More /\ Wish = "mul" /\
  \E z \in {Amp(seed, H(1) % 9999)} : \E f \in {Times(z, psi)} : IF Fits(f) THEN Do("mul", [z |-> z], f) ELSE Same("copy")
Next == \/ Reform
        \/ Local
        \/ Gate
        \/ Sum
        \/ Factor
Spec == Init /\ [][Next]_vars
(* --------------------------- what may be asked --------------------------- *)
Herm(i, n) == RndHerm(seed, 7000 + 31*i, n, 2)
Asked(f) == LET d == ini.d  L == ini.L IN
  \E O \in {Herm(1, d)} : \E w \in {1 + (Rnd(seed, 8) % 3)} : \E i \in {Rnd(seed, 9) % (L - w + 1)} :
  \E B \in {Herm(2, Pow(d, Min2(w, 2)))} : \E hs \in {TLCEval([b \in 1..(L-1) |-> Herm(2 + b, d*d)])} :
  \E ks \in {TLCEval([q \in 1..w |-> i + q - 1])} :
  \E ans \in {[den |-> Size2(f),
     O |-> O, ones |-> TLCEval([k \in 1..L |-> Mean(f, d, <<k-1>>, O)[1]]),
     i |-> i, w |-> w, rho |-> Reduced(f, d, ks), B |-> B, block |-> Mean(f, d, IF w = 3 THEN <<i, i+1>> ELSE ks, B),
     hs |-> hs, es |-> TLCEval([b \in 1..(L-1) |-> Mean(f, d, <<b-1, b>>, hs[b])[1]]),
     dot |-> Dot(f, Of(ini.us)), other2 |-> Size2(Of(ini.us))]} :
  PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, hist |-> hist, psi |-> Show(f), ans |-> ans])>>)
EmitAtEnd == Len(hist) = ini.len => \A f \in {psi} : Asked(f)
(* ------------------------- checked on the model ------------------------- *)
Clean == \A f \in {psi} : /\ DOMAIN f # {}
                          /\ \A w \in DOMAIN f : Len(w) = ini.L /\ ~CZero(f[w]) /\ \A k \in 1..Len(w) : w[k] \in 0..(ini.d-1)
\* a density matrix is Hermitian, its trace is the squared norm, and it gives the mean of every operator of its sites
Density == hist = <<>> => \A f \in {psi} : \A d \in {ini.d} : \A k \in {0, (ini.L-1) \div 2, ini.L-2} :
  \A R \in {Reduced(f, d, <<k, k+1>>)} : \A M \in {RndM(seed, 300+k, d*d, d*d, 2)} :
    /\ IsHermitian(R)
    /\ MTr(R) = <<Size2(f), 0>>
    /\ MTr(MMul(R, M)) = Mean(f, d, <<k, k+1>>, M)
\* operators on different sites commute, and one-site operators compose
Apart == hist = <<>> => \A f \in {psi} : \A d \in {ini.d} : \A M \in {RndM(seed, 400, d, d, 1)} : \A N \in {RndM(seed, 450, d, d, 1)} :
  /\ On(On(f, d, <<0>>, M), d, <<ini.L-1>>, N) = On(On(f, d, <<ini.L-1>>, N), d, <<0>>, M)
  /\ On(On(f, d, <<1>>, M), d, <<1>>, N) = On(f, d, <<1>>, MMul(N, M))
  /\ On(On(f, d, <<0>>, M), d, <<ini.L-1>>, N) = On(f, d, <<0, ini.L-1>>, MKron(M, N))
\* changes of form are invisible and gates keep the norm up to their scale
Frame == [][\A h \in {hist'[Len(hist')]} : \A f \in {psi} : \A g \in {psi'} :
             /\ h.op \notin {"apply", "gate", "add", "mul"} => g = f
             /\ h.op = "gate" => Size2(g) * 2 >= Size2(f) /\ Size2(g) % Size2(f) = 0
             /\ h.op = "mul" => Size2(g) = CAbs2(h.z)*Size2(f)]_vars
=============================================================================
