------------------------------- MODULE Double --------------------------------
(***************************************************************************)
(* Two copies of a chain, site by site.  A doubled chain has local basis   *)
(* labels (a, b): a of the first copy, b of the second, a more             *)
(* significant.  The machine starts from the double of a single chain or   *)
(* from any chain of that shape; it exchanges the copies, acts on one copy *)
(* or on both, loads another double, brings the chain to a form, and       *)
(* measures on either copy, against other doubles and against products.    *)
(* While the two copies are not entangled with one another the single      *)
(* vectors are kept too, and must explain every value.                     *)
(***************************************************************************)
EXTENDS Points, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, d, L, amp, one, two, hist, init
vars == <<seed, d, L, amp, one, two, hist, init>>

\* amplitudes of a chain of pairs from those of the two copies
Both(u_, v_, dd, n) == LET u == TLCEval(u_)  v == TLCEval(v_)  q == dd*dd
    half(t, k) == TLCEval(1 + SumSeq([j \in 1..n |-> (LET g == Dig(t, q, n, j-1) IN IF k = 1 THEN g \div dd ELSE g % dd) * Pow(dd, n-j)])) IN
  TLCEval([t \in 1..Pow(q, n) |-> CMul(u[half(t, 1)], v[half(t, 2)])])
Swapped(v_, dd, n) == LET v == TLCEval(v_)  q == dd*dd
    sw(t) == 1 + SumSeq([j \in 1..n |-> (LET g == Dig(t, q, n, j-1) IN (g % dd)*dd + (g \div dd)) * Pow(q, n-j)]) IN
  TLCEval([t \in 1..Len(v) |-> v[sw(t)]])
\* operators on either copy, both labels of a site
OnCopy(O, c, dd) == IF c = 1 THEN MKron(O, MId(dd)) ELSE MKron(MId(dd), O)
\* tensors of the double
TensorDouble(As) == TLCEval([k \in 1..Len(As) |-> TLCEval([p \in 1..(Len(As[k])*Len(As[k])) |->
    MKron(As[k][1 + ((p-1) \div Len(As[k]))], As[k][1 + ((p-1) % Len(As[k]))])])])
\* outer product of a vector with itself, conjugated on the right
Dyad(w) == Mat(Len(w), Len(w), LAMBDA i, j : CMul(w[i], CConj(w[j])))
RECURSIVE ActAll(_, _, _, _, _)
ActAll(v, q, n, ks, Os) == IF ks = <<>> THEN v
  ELSE ActAll(ApplyBlock(v, q, n, ks[1], 1, Os[1]), q, n, SubSeq(ks, 2, Len(ks)), SubSeq(Os, 2, Len(Os)))

Sit == [s |-> seed, n |-> Len(hist), d |-> d, L |-> L, amp |-> amp, one |-> one, two |-> two]
H(c, i) == Rnd(c.s, 5000 + 37*c.n + i)
Kinds == <<"swap", "act", "lcan", "rcan", "look", "look", "against", "local", "local", "load", "velocity", "symm", "copy", "look", "mixed">>
OneSite(c, i) == LET p == H(c, i) % 4 IN
  IF c.d = 2 /\ p = 0 THEN Y ELSE IF c.d = 2 /\ p = 1 THEN MAdd(X, Z) ELSE RndHerm(c.s, 8000 + 20*c.n + i, c.d, 2)
Chain1(s, i, dd, n) == LET bs == Profile(s + i, dd, n, 2) IN TLCEval(RndChain(s + 3*i, dd, n, bs, 1))
Do(c, op) ==
  LET q == c.d*c.d  k == H(c, 3) % c.L  cp == 1 + (H(c, 4) % 2) IN
  CASE op = "swap" -> [amp |-> Swapped(c.amp, c.d, c.L), one |-> c.two, two |-> c.one, log |-> [op |-> op, amp |-> Swapped(c.amp, c.d, c.L)]]
    [] op = "act" ->
         LET O == TLCEval(RndM(c.s, 8500 + 20*c.n, c.d, c.d, 1))  v == TLCEval(ApplyBlock(c.amp, q, c.L, k, 1, OnCopy(O, cp, c.d)))
             g(w, b) == IF b /\ w # <<>> THEN ApplyBlock(w, c.d, c.L, k, 1, O) ELSE w IN
         IF IsZeroVec(v) \/ Norm2(v) > 30000 THEN [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> "none"]]
         ELSE [amp |-> v, one |-> g(c.one, cp = 1), two |-> g(c.two, cp = 2), log |-> [op |-> op, k |-> k, O |-> OnCopy(O, cp, c.d), amp |-> v]]
    [] op = "load" ->
         LET As == Chain1(c.s, 900 + c.n, c.d, c.L)  v == TLCEval(Dense(As)) IN
         IF IsZeroVec(v) \/ Norm2(v) > 150 THEN [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> "none"]]
         ELSE LET w == TLCEval(Both(v, v, c.d, c.L)) IN [amp |-> w, one |-> v, two |-> v, log |-> [op |-> op, tensors |-> As, amp |-> w]]
    [] op = "look" ->
         LET Os == TLCEval([i \in 1..3 |-> OneSite(c, 10*i)]) IN
         [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> op, k |-> k, ops |-> Os, n |-> Norm2(c.amp),
            e |-> TLCEval([i \in 1..3 |-> <<ExpBlock(c.amp, q, c.L, k, 1, OnCopy(Os[i], 1, c.d)), ExpBlock(c.amp, q, c.L, k, 1, OnCopy(Os[i], 2, c.d))>>])]]
    [] op = "against" ->
         LET As == Chain1(c.s, 600 + c.n, c.d, c.L)  v == TLCEval(Dense(As))  w == TLCEval(Both(v, v, c.d, c.L)) IN
         [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> op, tensors |-> As, ov |-> Inner(w, c.amp),
            sq |-> IF c.one # <<>> THEN CMul(Inner(v, c.one), Inner(v, c.two)) ELSE Inner(w, c.amp)]]
    [] op = "local" ->
         LET ws == TLCEval([j \in 1..c.L |-> LET w == RndVec(c.s, 7000 + 40*c.n + 10*j, c.d, 1) IN IF IsZeroVec(w) THEN [w EXCEPT ![1] = C1] ELSE w])
             len == 1 + (H(c, 5) % c.L)  k0 == H(c, 6) % (c.L - len + 1)
             ks == TLCEval([j \in 1..len |-> k0 + j - 1]) 
             val(pair) == Inner(c.amp, ActAll(c.amp, q, c.L, ks, TLCEval([j \in 1..len |-> LET r == Dyad(ws[k0+j]) IN IF pair THEN MKron(r, r) ELSE MKron(MId(c.d), r)])))[1] IN
         [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> op, ws |-> ws, ks |-> ks, n |-> Norm2(c.amp), ns |-> TLCEval([j \in 1..len |-> Norm2(ws[k0+j])]),
            single |-> val(FALSE), pair |-> val(TRUE)]]
    [] op = "velocity" ->
         LET ts == TLCEval([j \in 1..(c.L-1) |-> Term(c.s, 400*j + 9*c.n, c.d)])
             hv(w) == TLCEval(HPsi(w, c.d, c.L, ts, c.L-1)) IN
         IF c.one = <<>> \/ c.one # c.two \/ Norm2(c.one) > 100 THEN [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> "none"]]
         ELSE LET G == TLCEval(Grad(c.one, hv(c.one)))
                  GG == TLCEval(VAdd(Both(G, c.one, c.d, c.L), Both(c.one, G, c.d, c.L))) IN
              [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> op, ts |-> ts, G |-> GG, hh |-> VAdd(Both(hv(c.one), c.one, c.d, c.L), Both(c.one, hv(c.one), c.d, c.L)), psi |-> c.one, n |-> Norm2(c.one), e |-> Inner(c.one, hv(c.one))[1]]]
    [] OTHER -> [amp |-> c.amp, one |-> c.one, two |-> c.two, log |-> [op |-> op, k |-> k]]
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ Kinds[1 + (H(c, 2) % Len(Kinds))] = op
       /\ \E r \in {TLCEval(Do(c, op))} : amp' = r.amp /\ one' = r.one /\ two' = r.two /\ hist' = Append(hist, r.log)
  /\ UNCHANGED <<seed, d, L, init>>
Next == \/ Step("swap")
        \/ Step("act")
        \/ Step("lcan")
        \/ Step("rcan")
        \/ Step("mixed")
        \/ Step("look")
        \/ Step("against")
        \/ Step("local")
        \/ Step("load")
        \/ Step("velocity")
        \/ Step("symm")
        \/ Step("copy")

InitOf(s) ==
  LET d0 == IF Rnd(s, 1) % 4 = 0 THEN 3 ELSE 2
      L0 == IF d0 = 3 THEN 2 ELSE Pick(s, 2, <<2, 3, 2, 3, 4>>)
      pure == Rnd(s, 5) % 4 # 0
      As == IF pure THEN Chain1(s, 0, d0, L0)
            ELSE RndChain(s, d0*d0, L0, TLCEval([k \in 1..(L0+1) |-> IF k = 1 \/ k = L0+1 THEN 1 ELSE IF Rnd(s, 70+k) % 3 = 0 THEN 1 ELSE 4]), 1)
      v == TLCEval(Dense(As)) IN
  [d |-> d0, L |-> L0, pure |-> pure, As |-> As, one |-> IF pure THEN v ELSE <<>>, amp |-> IF pure THEN Both(v, v, d0, L0) ELSE v,
   ok |-> ~IsZeroVec(v) /\ Norm2(v) <= (IF pure THEN 150 ELSE 30000)]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ c.ok
  /\ seed = s /\ d = c.d /\ L = c.L /\ amp = c.amp /\ one = c.one /\ two = c.one /\ hist = <<>>
  /\ init = [pure |-> c.pure, tensors |-> c.As, amp |-> c.amp]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
\* the vector is that of its copies as long as there are two copies
Copies == \A c \in {Sit} : c.one # <<>> => c.amp = Both(c.one, c.two, c.d, c.L)
\* the double of the tensors is the double of the state
TensorsToo == (hist = <<>> /\ init.pure) => \A c \in {Sit} : Dense(TensorDouble(init.tensors)) = c.amp
\* exchange is an involution; it fixes the vector exactly when the copies are one state
Involution == \A c \in {Sit} : \A w \in {Swapped(c.amp, c.d, c.L)} : Swapped(w, c.d, c.L) = c.amp /\ ((c.one # <<>> /\ c.one = c.two) => w = c.amp)
\* what a copy answers is what the single state answers
Single == (hist # <<>> /\ one # <<>> /\ hist[Len(hist)].op = "look") => \A h \in {hist[Len(hist)]} : \A c \in {Sit} : \A i \in 1..3 :
   /\ h.e[i][1] = ExpBlock(c.one, c.d, c.L, h.k, 1, h.ops[i]) * Norm2(c.two)
   /\ h.e[i][2] = ExpBlock(c.two, c.d, c.L, h.k, 1, h.ops[i]) * Norm2(c.one)
\* overlaps factorise, and so do the local ones of a pair
Squares == (hist # <<>> /\ hist[Len(hist)].op = "against") => \A h \in {hist[Len(hist)]} : h.ov = h.sq
PairLocal == (hist # <<>> /\ one # <<>> /\ one = two /\ hist[Len(hist)].op = "local") => \A h \in {hist[Len(hist)]} :
   (h.pair < 46000 /\ h.n < 46000 /\ h.single < 46000) => h.pair * h.n = h.single * h.single
\* motion of both copies stays a motion of two copies, and does not change the norm
Perp == (hist # <<>> /\ hist[Len(hist)].op = "velocity") => \A h \in {hist[Len(hist)]} : \A c \in {Sit} : Inner(c.amp, h.G) = C0 /\ Swapped(h.G, c.d, c.L) = h.G
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, d |-> d, L |-> L, init |-> init, hist |-> hist])>>)
=============================================================================
