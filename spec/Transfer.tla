------------------------------ MODULE Transfer -------------------------------
(***************************************************************************)
(* Transfer maps.  Two tensors A and B make the linear map                 *)
(*      T(r) = sum_s A_s r B_s^*          on matrices,                     *)
(* with adjoint T*(l) = sum_s A_s^* l B_s.  The machine keeps A, B, a      *)
(* matrix x that has been pushed through T, a matrix y pushed through T*,  *)
(* and (for tensors made from scaled monomial unitaries) the fixed points  *)
(* R and L with their eigenvalue.  It changes gauges of A and of B, scales *)
(* B, swaps the two tensors, merges two sites into one, and combines       *)
(* unrelated tensors item by item.  Every answer is exact.                 *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, A, B, x, y, fix, hist, ini
vars == <<seed, A, B, x, y, fix, hist, ini>>

MSum(ms) == FoldLeft(MAdd, ms[1], Tail(ms))
Push(As, Bs, r) == TLCEval(MSum(TLCEval([s \in 1..Len(As) |-> MMul(As[s], MMul(r, MDag(Bs[s])))])))
Pull(As, Bs, l) == TLCEval(MSum(TLCEval([s \in 1..Len(As) |-> MMul(MDag(As[s]), MMul(l, Bs[s]))])))
AsMat(As, Bs) == TLCEval(MSum(TLCEval([s \in 1..Len(As) |-> MKron(As[s], MConj(Bs[s]))])))
FlatM(M) == LET n == Len(M)  m == Cols(M) IN TLCEval([k \in 1..(n*m) |-> M[1 + ((k-1) \div m)][1 + ((k-1) % m)]])
\* <P, Q> = tr P^* Q
Pair(P, Q) == Inner(FlatM(P), FlatM(Q))
Blocked(As) == LET d == Len(As) IN
  TLCEval([k \in 1..(d*d) |-> MMul(As[1 + ((k-1) \div d)], As[1 + ((k-1) % d)])])
Phase(n) == <<C1, CI, <<-1, 0>>, <<0, -1>>>>[1 + (n % 4)]
Perms3 == <<<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>>>
PermOf(s, i, D) == IF D = 1 THEN <<1>> ELSE IF D = 2 THEN (IF Rnd(s, i) % 2 = 0 THEN <<1, 2>> ELSE <<2, 1>>) ELSE Perms3[1 + (Rnd(s, i) % 6)]
Monom(s, i, D) == LET p == PermOf(s, i, D) IN Mat(D, D, LAMBDA a, b : IF b = p[a] THEN Phase(Rnd(s, i + 1 + a)) ELSE C0)
\* an elementary gauge: shear or monomial, with its inverse
Shear(s, i, D) ==
  LET a == 1 + (Rnd(s, i) % D)  b == 1 + ((a + (Rnd(s, i+1) % Max2(1, D-1))) % D)  k == Phase(Rnd(s, i+2)) IN
  IF D = 1 \/ Rnd(s, i+3) % 3 = 0
  THEN LET M == Monom(s, i+10, D) IN [S |-> M, I |-> MDag(M)]
  ELSE [S |-> Mat(D, D, LAMBDA p, q : IF p = q THEN C1 ELSE IF p = a /\ q = b THEN k ELSE C0),
        I |-> Mat(D, D, LAMBDA p, q : IF p = q THEN C1 ELSE IF p = a /\ q = b THEN CNeg(k) ELSE C0)]
Conjugated(As, g) == TLCEval([s \in 1..Len(As) |-> MMul(g.S, MMul(As[s], g.I))])
ScaleAll(c, As) == TLCEval([s \in 1..Len(As) |-> MScale(c, As[s])])
Biggest(M) == FoldLeft(LAMBDA a, c : Max2(a, Max2(Abs(c[1]), Abs(c[2]))), 0, FlatM(M))

InitOf(s) ==
  LET d == 2 + (Rnd(s, 1) % 2)  D == 1 + (Rnd(s, 2) % 3)
      kind == Pick(s, 3, <<"fixed", "fixed", "free">>)
      c == TLCEval([t \in 1..d |-> LET z == RndC(s, 40+t, 1) IN IF CZero(z) THEN C1 ELSE z])
      U == TLCEval([t \in 1..d |-> MScale(c[t], Monom(s, 60 + 20*t, D))])
      N == FoldLeft(LAMBDA a, z : a + CAbs2(z), 0, c)
      G == TLCEval([t \in 1..d |-> RndM(s, 300 + 50*t, D, D, 1)])
      F == TLCEval([t \in 1..d |-> RndM(s, 600 + 50*t, D, D, 1)])
      A0 == IF kind = "fixed" THEN U ELSE G
      B0 == IF kind = "fixed" THEN U ELSE IF Rnd(s, 4) % 2 = 0 THEN G ELSE F
  IN [A |-> A0, B |-> B0, x |-> RndM(s, 800, D, D, 1), y |-> RndM(s, 900, D, D, 1),
      fix |-> IF kind = "fixed" THEN [has |-> TRUE, R |-> MId(D), L |-> MId(D), ev |-> <<N, 0>>]
              ELSE [has |-> FALSE, R |-> <<>>, L |-> <<>>, ev |-> C0]]

Sit == [s |-> seed, n |-> Len(hist), A |-> A, B |-> B, x |-> x, y |-> y, fix |-> fix]
H(c, i) == Rnd(c.s, 5000 + 61*c.n + i)
Keep(c) == [A |-> c.A, B |-> c.B, x |-> c.x, y |-> c.y, fix |-> c.fix]
NOp(name) == Cardinality({i \in 1..Len(hist) : hist[i].op = name})
Ops == <<"push", "pull", "push", "pull", "matrix", "swap", "gaugeA", "gaugeB", "both", "scaleB", "merge", "fixed", "fixed", "ask", "ask", "items", "equal", "new", "carry">>
Small(M) == Biggest(M) < 3000
Do(c, op) ==
  LET k == Keep(c)  D == Len(c.A[1]) IN
  CASE op = "push" -> LET z == Push(c.A, c.B, c.x) IN [k EXCEPT !.x = z] @@ [log |-> [op |-> op, v |-> z]]
    [] op = "pull" -> LET z == Pull(c.A, c.B, c.y) IN [k EXCEPT !.y = z] @@ [log |-> [op |-> op, v |-> z]]
    [] op = "matrix" -> k @@ [log |-> [op |-> op, m |-> AsMat(c.A, c.B), own |-> AsMat(c.A, c.A)]]
    \* T(B,A)(r^*) = T(A,B)(r)^*
    [] op = "swap" -> [A |-> c.B, B |-> c.A, x |-> MDag(c.x), y |-> MDag(c.y),
                       fix |-> IF c.fix.has THEN [has |-> TRUE, R |-> MDag(c.fix.R), L |-> MDag(c.fix.L), ev |-> CConj(c.fix.ev)] ELSE c.fix,
                       log |-> [op |-> op]]
    [] op = "gaugeA" -> LET g == Shear(c.s, 1000 + 40*c.n, D)  As == Conjugated(c.A, g) IN
         [A |-> As, B |-> c.B, x |-> MMul(g.S, c.x), y |-> MMul(MDag(g.I), c.y),
          fix |-> IF c.fix.has THEN [c.fix EXCEPT !.R = MMul(g.S, @), !.L = MMul(MDag(g.I), @)] ELSE c.fix,
          log |-> [op |-> op, A |-> As]]
    [] op = "gaugeB" -> LET g == Shear(c.s, 1000 + 40*c.n, D)  Bs == Conjugated(c.B, g) IN
         [A |-> c.A, B |-> Bs, x |-> MMul(c.x, MDag(g.S)), y |-> MMul(c.y, g.I),
          fix |-> IF c.fix.has THEN [c.fix EXCEPT !.R = MMul(@, MDag(g.S)), !.L = MMul(@, g.I)] ELSE c.fix,
          log |-> [op |-> op, B |-> Bs]]
    [] op = "both" -> LET g == Shear(c.s, 1000 + 40*c.n, D)  As == Conjugated(c.A, g)  Bs == Conjugated(c.B, g) IN
         [A |-> As, B |-> Bs, x |-> MMul(g.S, MMul(c.x, MDag(g.S))), y |-> MMul(MDag(g.I), MMul(c.y, g.I)),
          fix |-> IF c.fix.has THEN [c.fix EXCEPT !.R = MMul(g.S, MMul(@, MDag(g.S))), !.L = MMul(MDag(g.I), MMul(@, g.I))] ELSE c.fix,
          log |-> [op |-> op, A |-> As, B |-> Bs]]
    [] op = "scaleB" -> LET z == Pick(c.s, 2000 + c.n, <<<<0, 1>>, <<-1, 0>>, <<1, 1>>, <<2, 0>>, <<1, -2>>>>)  Bs == ScaleAll(z, c.B) IN
         [k EXCEPT !.B = Bs, !.fix = IF c.fix.has THEN [c.fix EXCEPT !.ev = CMul(@, CConj(z))] ELSE c.fix] @@ [log |-> [op |-> op, B |-> Bs]]
    \* two sites as one: the map is applied twice
    [] op = "merge" -> LET As == Blocked(c.A)  Bs == Blocked(c.B) IN
         [k EXCEPT !.A = As, !.B = Bs, !.fix = IF c.fix.has THEN [c.fix EXCEPT !.ev = CMul(@, @)] ELSE c.fix] @@ [log |-> [op |-> op, A |-> As, B |-> Bs]]
    [] op = "fixed" -> k @@ [log |-> [op |-> op, has |-> c.fix.has, R |-> c.fix.R, L |-> c.fix.L, ev |-> c.fix.ev]]
    \* is num/den times T(r) equal to r?
    [] op = "ask" ->
         LET r == IF c.fix.has /\ H(c, 3) % 2 = 0 THEN c.fix.R ELSE c.x
             l == IF c.fix.has /\ H(c, 3) % 2 = 0 THEN c.fix.L ELSE c.y
             inv == IF c.fix.has /\ H(c, 4) % 3 > 0 THEN c.fix.ev ELSE RndC(c.s, 3000 + c.n, 3)
             lam == IF CZero(inv) THEN C1 ELSE inv IN
         k @@ [log |-> [op |-> op, r |-> r, l |-> l, lam |-> lam,
                        right |-> MScale(lam, r) = Push(c.A, c.B, r),
                        left |-> MScale(CConj(lam), l) = Pull(c.A, c.B, l)]]
    [] op = "items" -> LET z == RndC(c.s, 3100 + c.n, 2) IN
         k @@ [log |-> [op |-> op, plus |-> TLCEval([s \in 1..Len(c.A) |-> MAdd(c.A[s], c.B[s])]),
                        minus |-> TLCEval([s \in 1..Len(c.A) |-> MSub(c.A[s], c.B[s])]), z |-> z, times |-> ScaleAll(z, c.A)]]
    \* states are equal when they have the same tensors, all of them
    [] op = "equal" ->
         LET one == Rnd(c.s, 3200 + c.n) % 3
             other == CASE one = 0 -> c.A [] one = 1 -> c.B
                        [] OTHER -> [c.A EXCEPT ![1] = [@ EXCEPT ![1] = [@ EXCEPT ![1] = CAdd(@, C1)]]] IN
         k @@ [log |-> [op |-> op, other |-> other, same |-> c.A = other]]
    \* matrices carried along a chain of tensors, to the left and (with the
    \* transposed tensors) to the right; the tensor at a site is A or B
    [] op = "carry" ->
         LET w == TLCEval([i \in 1..3 |-> IF Rnd(c.s, 3400 + 7*c.n + i) % 2 = 0 THEN c.A ELSE c.B])
             m == RndM(c.s, 3500 + 20*c.n, D, D, 1)  m2 == RndM(c.s, 3510 + 20*c.n, D, D, 1)
             Turned(T) == TLCEval([s \in 1..Len(T) |-> MDag(MConj(T[s]))]) IN
         k @@ [log |-> [op |-> op, w |-> w, m |-> m, m2 |-> m2,
                        lefts |-> <<Push(w[2], w[2], Push(w[3], w[3], m)), Push(w[3], w[3], m), m>>,
                        rights |-> <<m, Push(Turned(w[2]), Turned(w[2]), m), Push(Turned(w[3]), Turned(w[3]), Push(Turned(w[2]), Turned(w[2]), m))>>,
                        right2 |-> Push(Turned(w[2]), Turned(w[2]), m2)]]
    [] op = "new" -> LET z == RndM(c.s, 3300 + 20*c.n, D, D, 2)  w == RndM(c.s, 3310 + 20*c.n, D, D, 2) IN
         [k EXCEPT !.x = z, !.y = w] @@ [log |-> [op |-> op, x |-> z, y |-> w]]
Allowed(c, op) ==
  /\ op = "push" => Small(c.x) /\ Biggest(c.A[1]) < 40
  /\ op = "pull" => Small(c.y) /\ Biggest(c.A[1]) < 40
  /\ op = "carry" => \A s \in 1..Len(c.A) : Biggest(c.A[s]) < 12 /\ Biggest(c.B[s]) < 12
  /\ op = "merge" => Len(c.A) = 2 /\ Biggest(c.A[1]) < 12
  /\ op \in {"gaugeA", "gaugeB", "both"} => NOp("gaugeA") + NOp("gaugeB") + NOp("both") < 3 /\ NOp("merge") = 0
  /\ op = "scaleB" => NOp("scaleB") < 1
Picked(c) == LET op == Ops[1 + (H(c, 1) % Len(Ops))] IN IF Allowed(c, op) THEN op ELSE "new"
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ Picked(c) = op
       /\ \E r \in {TLCEval(Do(c, op))} : A' = r.A /\ B' = r.B /\ x' = r.x /\ y' = r.y /\ fix' = r.fix /\ hist' = Append(hist, IF op \in {"swap", "gaugeA", "gaugeB", "both"} THEN r.log @@ [x |-> r.x, y |-> r.y] ELSE r.log)
  /\ UNCHANGED <<seed, ini>>
Next == \/ Step("push")
        \/ Step("pull")
        \/ Step("matrix")
        \/ Step("swap")
        \/ Step("gaugeA")
        \/ Step("gaugeB")
        \/ Step("both")
        \/ Step("scaleB")
        \/ Step("merge")
        \/ Step("fixed")
        \/ Step("ask")
        \/ Step("items")
        \/ Step("equal")
        \/ Step("new")
        \/ Step("carry")
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ seed = s /\ A = c.A /\ B = c.B /\ x = c.x /\ y = c.y /\ fix = c.fix /\ hist = <<>>
  /\ ini = [A |-> c.A, B |-> c.B, x |-> c.x, y |-> c.y]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
Adjoint == \A c \in {Sit} : (Biggest(c.A[1]) < 40 /\ Biggest(c.x) < 500 /\ Biggest(c.y) < 500) =>
  Pair(c.y, Push(c.A, c.B, c.x)) = Pair(Pull(c.A, c.B, c.y), c.x)
Represented == \A c \in {Sit} : (Biggest(c.A[1]) < 40 /\ Small(c.x)) =>
  MVec(AsMat(c.A, c.B), FlatM(c.x)) = FlatM(Push(c.A, c.B, c.x))
Fixed == \A c \in {Sit} : c.fix.has =>
  /\ Push(c.A, c.B, c.fix.R) = MScale(c.fix.ev, c.fix.R)
  /\ Pull(c.A, c.B, c.fix.L) = MScale(CConj(c.fix.ev), c.fix.L)
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, hist |-> hist])>>)
=============================================================================
