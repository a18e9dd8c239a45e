-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Several matrix product states alive at once.  The pool is a sequence of *)
(* objects; a call either makes a new object from old ones, or changes one *)
(* object in place, or returns a number.  Every call's frame is explicit:  *)
(* only its target changes.  An object is known                            *)
(*   "raw": tensor by tensor (the model computes with the tensors),        *)
(*   "vec": by its exact vector,                                           *)
(*   "unit": up to a scalar, at unit norm,                                 *)
(*   "ray": up to a scalar.                                                *)
(***************************************************************************)
EXTENDS MPS, Json

CONSTANTS SeedLo, SeedHi, Depth, Branch, MaxL, Kinds, KindSeq
VARIABLES seed, d, pool, hist, init
vars == <<seed, d, pool, hist, init>>

Kind1 == <<"add", "mul", "imul", "idiv", "iadd", "isub", "apply", "extend", "append", "prod", "copy", "pack">>
KindArith == Kind1
KindOverlap == <<"mul", "imul", "apply", "copy", "lcan", "rcan", "mcan", "morth", "overlap", "full_overlap", "norm", "prod_overlap",
                 "local_overlap", "approx_overlap", "prod", "proj">>
KindHeap == <<"add", "mul", "apply", "copy", "copy", "pack", "extend", "imul", "overlap", "norm", "full_overlap",
              "lcan", "rcan", "mcan", "morth", "lorth", "rorth", "E", "Ek", "rho", "set", "gate", "look", "entropy", "local_overlap">>

Obj(mode, L, v, As) == [mode |-> mode, L |-> L, v |-> v, As |-> As]
Bound == 1500
Small(v) == \A i \in 1..Len(v) : Abs(v[i][1]) <= Bound /\ Abs(v[i][2]) <= Bound

(* --------------------- reference operations on tensors ------------------ *)
AddT(As, Bs) == LET L == Len(As)  d0 == Len(As[1]) IN
  IF L = 1 THEN <<[p \in 1..d0 |-> MAdd(As[1][p], Bs[1][p])]>>
  ELSE TLCEval([k \in 1..L |-> TLCEval([p \in 1..d0 |->
    LET A == As[k][p]  B == Bs[k][p]  r == IF k = 1 THEN 0 ELSE Len(A)  q == IF k = L THEN 0 ELSE Cols(A) IN
    Mat(IF k = 1 THEN 1 ELSE Len(A) + Len(B), IF k = L THEN 1 ELSE Cols(A) + Cols(B),
        LAMBDA a, b : IF k = 1 THEN (IF b <= Cols(A) THEN A[1][b] ELSE B[1][b - Cols(A)])
                      ELSE IF k = L THEN (IF a <= Len(A) THEN A[a][1] ELSE B[a - Len(A)][1])
                      ELSE IF a <= Len(A) /\ b <= Cols(A) THEN A[a][b]
                      ELSE IF a > Len(A) /\ b > Cols(A) THEN B[a - Len(A)][b - Cols(A)] ELSE C0)])])
ScaleT(As, c, k) == TLCEval([j \in 1..Len(As) |-> IF j = k+1 THEN [p \in 1..Len(As[j]) |-> MScale(c, As[j][p])] ELSE As[j]])
ScaleAllT(As, c) == TLCEval([j \in 1..Len(As) |-> [p \in 1..Len(As[j]) |-> MScale(c, As[j][p])]])
ZipT(As, Bs, F(_, _)) == TLCEval([j \in 1..Len(As) |-> [p \in 1..Len(As[j]) |-> F(As[j][p], Bs[j][p])]])
ApplyT(As, O, k) == TLCEval([j \in 1..Len(As) |->
   IF j # k+1 THEN As[j] ELSE [p \in 1..Len(As[j]) |->
     FoldLeft(LAMBDA M, q : MAdd(M, MScale(O[p][q], As[j][q])), MZero(Len(As[j][1]), Cols(As[j][1])), [q \in 1..Len(As[j]) |-> q])]])
RECURSIVE CPow(_, _)
CPow(c, n) == IF n = 0 THEN C1 ELSE CMul(c, CPow(c, n-1))

(* -------------------------------- calls --------------------------------- *)
\* c: [s, n, d, pool]
H(c, i) == Rnd(c.s, 50000 + 113*c.n + i)
Base(c) == 70000 + 301*c.n
I1(c) == 1 + (H(c, 1) % Len(c.pool))
I2nd(c) == 1 + (H(c, 2) % Len(c.pool))
Num(c) == <<C1, CI, <<2, 0>>, <<-1, 1>>, <<0, -1>>, <<1, 2>>, C0>>[1 + (H(c, 3) % 7)]
Unit4(c) == <<C1, CI, <<-1, 0>>, <<0, -1>>>>[1 + (H(c, 3) % 4)]
OpOn(c) == LET p == H(c, 4) % 3 IN IF p = 0 /\ c.d = 2 THEN <<X, Y, Z>>[1 + (H(c, 5) % 3)] ELSE RndM(c.s, Base(c), c.d, c.d, 1)
PermOn(d0) == Mat(d0, d0, LAMBDA a, b : IF a = (b % d0) + 1 THEN CI ELSE C0)

SameShape(x, y) == x.mode = "raw" /\ y.mode = "raw" /\ Shapes(x.As) = Shapes(y.As)
Known(x) == x.mode \in {"raw", "vec"}
IsProduct(x) == x.mode = "raw" /\ \A k \in 1..x.L : Len(x.As[k][1]) = 1 /\ Cols(x.As[k][1]) = 1
\* partial trace of |x><y| over everything but the block of w sites from k
Cross(xv, yv, d0, L, k, w) ==
  LET m == Pow(d0, w)   q == Pow(d0, L-k-w)   hh == Pow(d0, k)
      At(v, a, r, e) == v[(a*m + r)*q + e + 1]
  IN Mat(m, m, LAMBDA r, t : CSumSeq(TLCEval([e \in 1..(hh*q) |->
        CMul(At(xv, (e-1) \div q, r-1, (e-1) % q), CConj(At(yv, (e-1) \div q, t-1, (e-1) % q)))])))
\* can this kind of call be made on these objects?
Fits(kind, c) ==
  LET x == c.pool[I1(c)]  y == c.pool[I2nd(c)] IN
  CASE kind = "add" -> Known(x) /\ Known(y) /\ x.L = y.L /\ Len(c.pool) < 7
    [] kind \in {"iadd", "isub"} -> SameShape(x, y) /\ Len(c.pool) < 7
    [] kind \in {"mul", "imul", "idiv", "apply", "copy", "pack", "prod"} -> Len(c.pool) < 7
    [] kind \in {"extend"} -> x.L + y.L <= MaxL + 1 /\ Len(c.pool) < 7
    [] kind \in {"append"} -> x.L <= MaxL /\ Len(c.pool) < 7
    [] kind \in {"overlap", "full_overlap"} -> x.L = y.L
    [] kind \in {"local_overlap", "approx_overlap"} -> x.L = y.L /\ ~IsZeroVec(x.v) /\ ~IsZeroVec(y.v)
    [] kind \in {"norm", "prod_overlap", "look"} -> TRUE
    [] kind = "proj" -> IsProduct(x) /\ IsProduct(y) /\ x.L = y.L
    [] kind \in {"lcan", "rcan", "mcan", "morth", "lorth", "rorth", "E", "Ek", "rho", "entropy"} -> ~IsZeroVec(x.v) /\ x.L >= 2
    [] kind = "set" -> ~IsZeroVec(x.v)
    [] kind = "gate" -> ~IsZeroVec(x.v) /\ c.d = 2 /\ x.L >= 2

Weaker(m1, m2) == IF m1 = "raw" /\ m2 = "raw" THEN "raw" ELSE IF {m1, m2} \subseteq {"raw", "vec"} THEN "vec"
                  ELSE "ray"
\* a new object; its tensors are known only if all its operands' are
Make(c, log, o) == IF o.v # <<>> /\ ~Small(o.v) THEN [log |-> [op |-> "skip"], pool |-> c.pool]
                   ELSE [log |-> log @@ [new |-> Len(c.pool)+1, mode |-> o.mode, v |-> o.v,
                                         As |-> IF o.mode = "raw" THEN o.As ELSE <<>>],
                         pool |-> Append(c.pool, IF o.mode = "raw" THEN o ELSE [o EXCEPT !.As = <<>>])]
Change(c, i, log, o) == IF ~Small(o.v) THEN [log |-> [op |-> "skip"], pool |-> c.pool]
                        ELSE [log |-> log @@ [target |-> i, mode |-> o.mode, v |-> o.v], pool |-> [c.pool EXCEPT ![i] = o]]
Tell(c, log) == [log |-> log, pool |-> c.pool]
Ray(x) == [x EXCEPT !.mode = "unit", !.As = <<>>]

\* value of an overlap of objects x, y: exact, or its squared modulus, as num/den
OverlapValue(x, y) ==
  LET z == Inner(y.v, x.v) IN            \* <y|x>
  IF Known(x) /\ Known(y) THEN [exact |-> 1, z |-> z, den |-> 1]
  ELSE [exact |-> IF "ray" \in {x.mode, y.mode} THEN 2 ELSE 0, z |-> z, den |-> 1]

Call(kind, c) ==
  LET i == I1(c)  j == I2nd(c)  x == c.pool[i]  y == c.pool[j]  k == H(c, 6) % x.L  d0 == c.d IN
  CASE kind = "add" ->
         LET raw == x.mode = "raw" /\ y.mode = "raw" IN
         Make(c, [op |-> kind, i |-> i, j |-> j],
              Obj("vec", x.L, IF raw THEN Dense(AddT(x.As, y.As)) ELSE VAdd(x.v, y.v), <<>>))
    [] kind = "mul" ->
         LET z == Num(c) IN
         Make(c, [op |-> kind, i |-> i, c |-> z],
              Obj(IF Known(x) THEN "vec" ELSE "ray", x.L,
                  IF x.mode = "raw" THEN Dense(ScaleT(x.As, z, 0)) ELSE VScale(z, x.v), <<>>))
    [] kind \in {"imul", "idiv"} ->
         LET z == IF kind = "imul" THEN Num(c) ELSE Unit4(c)
             w == IF kind = "imul" THEN z ELSE CConj(z) IN     \* 1/z = conj z for |z| = 1
         Make(c, [op |-> kind, i |-> i, c |-> z],
              Obj(IF Known(x) THEN x.mode ELSE "ray", x.L,
                  IF x.mode = "raw" THEN Dense(ScaleAllT(x.As, w)) ELSE VScale(CPow(w, x.L), x.v),
                  IF x.mode = "raw" THEN ScaleAllT(x.As, w) ELSE <<>>))
    [] kind \in {"iadd", "isub"} ->
         LET T == TLCEval(IF kind = "iadd" THEN ZipT(x.As, y.As, MAdd) ELSE ZipT(x.As, y.As, MSub)) IN
         Make(c, [op |-> kind, i |-> i, j |-> j], Obj("raw", x.L, Dense(T), T))
    [] kind = "apply" ->
         LET O == TLCEval(OpOn(c)) IN
         Make(c, [op |-> kind, i |-> i, k |-> k, O |-> O],
              Obj(IF Known(x) THEN x.mode ELSE "ray", x.L, ApplyBlock(x.v, d0, x.L, k, 1, O),
                  IF x.mode = "raw" THEN ApplyT(x.As, O, k) ELSE <<>>))
    [] kind = "extend" ->
         Make(c, [op |-> kind, i |-> i, j |-> j],
              Obj(Weaker(x.mode, y.mode), x.L + y.L, Kron(x.v, y.v),
                  IF x.mode = "raw" /\ y.mode = "raw" THEN x.As \o y.As ELSE <<>>))
    [] kind = "append" ->
         LET w == RndVec(c.s, Base(c), d0, 1)
             T == TLCEval([p \in 1..d0 |-> <<<<w[p]>>>>]) IN
         Make(c, [op |-> kind, i |-> i, T |-> T],
              Obj(IF Known(x) THEN x.mode ELSE "ray", x.L + 1, Kron(x.v, w), IF x.mode = "raw" THEN Append(x.As, T) ELSE <<>>))
    [] kind = "prod" ->
         LET ws == TLCEval([q \in 1..x.L |-> RndVec(c.s, Base(c) + 10*q, d0, 1)])
             T == TLCEval([q \in 1..x.L |-> [p \in 1..d0 |-> <<<<ws[q][p]>>>>]]) IN
         Make(c, [op |-> kind, ws |-> ws],
              Obj("raw", x.L, FoldLeft(LAMBDA a, b : Kron(a, b), <<C1>>, ws), T))
    [] kind \in {"copy", "pack"} -> Make(c, [op |-> kind, i |-> i], x)
    [] kind = "overlap" -> Tell(c, [op |-> kind, i |-> i, j |-> j] @@ OverlapValue(x, y))
    [] kind = "full_overlap" -> Tell(c, [op |-> kind, i |-> i, j |-> j] @@ OverlapValue(y, x))   \* conjugated
    [] kind = "norm" -> Tell(c, [op |-> kind, i |-> i, j |-> i] @@ OverlapValue(x, x))
    [] kind = "prod_overlap" ->
         LET ws == TLCEval([q \in 1..x.L |-> RndVec(c.s, Base(c) + 10*q, d0, 1)])
             y2 == Obj("raw", x.L, TLCEval(FoldLeft(LAMBDA a, b : Kron(a, b), <<C1>>, ws)), <<>>) IN
         Tell(c, [op |-> kind, i |-> i, ws |-> ws] @@ OverlapValue(x, y2))
    [] kind = "local_overlap" ->
         LET w == 1 + (H(c, 7) % Min2(IF d0 = 2 THEN 4 ELSE 2, x.L))  k1 == H(c, 8) % (x.L - w + 1)
             z == MTr(MMul(Rho(x.v, d0, x.L, k1, w), Rho(y.v, d0, x.L, k1, w))) IN
         \* measuring may change the gauge of both
         [log |-> [op |-> kind, i |-> i, j |-> j, k |-> k1, w |-> w, num |-> z[1], d1 |-> Norm2(x.v), d2 |-> Norm2(y.v)],
          pool |-> [[c.pool EXCEPT ![i].mode = "ray", ![i].As = <<>>] EXCEPT ![j].mode = "ray", ![j].As = <<>>]]
    [] kind = "approx_overlap" ->
         LET w == 1 + (H(c, 7) % Min2(IF d0 = 2 THEN 4 ELSE 2, x.L)) IN
         [log |-> [op |-> kind, i |-> i, j |-> j, w |-> w,
                   nums |-> TLCEval([k1 \in 1..(x.L - w + 1) |-> MTr(MMul(Rho(x.v, d0, x.L, k1-1, w), Rho(y.v, d0, x.L, k1-1, w)))[1]]),
                   d1 |-> Norm2(x.v), d2 |-> Norm2(y.v)],
          pool |-> [[c.pool EXCEPT ![i].mode = "ray", ![i].As = <<>>] EXCEPT ![j].mode = "ray", ![j].As = <<>>]]
    [] kind = "proj" ->
         LET w == 1 + (H(c, 7) % Min2(IF d0 = 2 THEN 4 ELSE 2, x.L))  k1 == H(c, 8) % (x.L - w + 1) IN
         Tell(c, [op |-> kind, i |-> i, j |-> j, k |-> k1, w |-> w, M |-> Cross(x.v, y.v, d0, x.L, k1, w)])
    [] kind = "look" -> Tell(c, [op |-> kind, i |-> i])
    [] kind \in {"lcan", "rcan", "lorth", "rorth", "entropy"} -> Change(c, i, [op |-> kind, i |-> i, k |-> k], Ray(x))
    [] kind \in {"mcan", "morth"} -> Change(c, i, [op |-> kind, i |-> i, k |-> k], Ray(x))
    [] kind \in {"E", "Ek", "rho"} -> Change(c, i, [op |-> kind, i |-> i, k |-> k], [x EXCEPT !.mode = "ray", !.As = <<>>])
    [] kind = "set" ->
         LET O == PermOn(d0) IN
         Change(c, i, [op |-> kind, i |-> i, k |-> k, O |-> O],
                [x EXCEPT !.v = ApplyBlock(x.v, d0, x.L, k, 1, O), !.As = <<>>, !.mode = IF Known(x) THEN "vec" ELSE x.mode])
    [] kind = "gate" ->
         LET k1 == H(c, 6) % (x.L - 1)
             U == RealM(<<<<1,0,0,0>>, <<0,0,0,1>>, <<0,0,1,0>>, <<0,1,0,0>>>>) IN
         Change(c, i, [op |-> kind, i |-> i, k |-> k1, U |-> U],
                [x EXCEPT !.v = ApplyBlock(x.v, d0, x.L, k1, 2, U), !.As = <<>>, !.mode = "ray"])

(* ------------------------------ the machine ----------------------------- *)
Now == [s |-> seed, n |-> Len(hist), d |-> d, pool |-> pool]
Do(kind) ==
  /\ Len(hist) < Depth
  /\ kind \in Kinds
  /\ \E c \in {Now} :
       /\ Fits(kind, c)
       /\ Branch \/ LET en == SelectSeq(KindSeq, LAMBDA q : q \in Kinds /\ Fits(q, c))
                    IN en[1 + (Rnd(c.s, 60000 + 13*c.n) % Len(en))] = kind
       /\ \E r \in {TLCEval(Call(kind, c))} : pool' = r.pool /\ hist' = Append(hist, r.log)
  /\ UNCHANGED <<seed, d, init>>
Arithmetic == Do("add") \/ Do("mul") \/ Do("imul") \/ Do("idiv") \/ Do("iadd") \/ Do("isub")
Build == Do("apply") \/ Do("extend") \/ Do("append") \/ Do("prod") \/ Do("copy") \/ Do("pack")
Read == Do("overlap") \/ Do("full_overlap") \/ Do("norm") \/ Do("prod_overlap") \/ Do("proj") \/ Do("look")
ReadRegion == Do("local_overlap") \/ Do("approx_overlap")
Reform == Do("lcan") \/ Do("rcan") \/ Do("mcan") \/ Do("morth") \/ Do("lorth") \/ Do("rorth") \/ Do("entropy")
Measure == Do("E") \/ Do("Ek") \/ Do("rho")
Mutate == Do("set") \/ Do("gate")
Next == Arithmetic \/ Build \/ Read \/ ReadRegion \/ Reform \/ Measure \/ Mutate

Leaf(s, d0, L0) == LET fam == Pick(s, 3, Families)  As == TLCEval(Chain(fam, s, d0, L0, 2, 1)) IN Obj("raw", L0, Dense(As), As)
InitOf(s) ==
  LET d0 == IF Rnd(s, 1) % 4 = 0 THEN 3 ELSE 2
      mL == IF d0 = 3 THEN Min2(MaxL, 3) ELSE MaxL
      L0 == 1 + (Rnd(s, 2) % mL)
      L1 == L0
  IN [d |-> d0, pool |-> TLCEval(<<Leaf(s, d0, L1), Leaf(s + 7919, d0, L1)>>)]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
   /\ \A i \in 1..2 : Small(c.pool[i].v) /\ ~IsZeroVec(c.pool[i].v)
   /\ seed = s /\ d = c.d /\ pool = c.pool /\ hist = <<>> /\ init = [pool |-> c.pool, d |-> c.d]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
\* objects known by their tensors denote their vector
Denotes == \A i \in 1..Len(pool) : pool[i].mode = "raw" => Dense(pool[i].As) = pool[i].v
Sizes == \A i \in 1..Len(pool) : Len(pool[i].v) = Pow(d, pool[i].L)
\* the algebra: the tensor-level definitions are the vector-level ones
Laws == hist # <<>> =>
  LET h == hist[Len(hist)] IN
  CASE h.op = "add" -> pool[h.new].v = VAdd(pool[h.i].v, pool[h.j].v)
    [] h.op = "mul" -> pool[h.new].v = VScale(h.c, pool[h.i].v)
    [] h.op = "imul" -> pool[h.new].v = VScale(CPow(h.c, pool[h.i].L), pool[h.i].v)
    [] h.op = "norm" -> h.z[2] = 0 /\ h.z[1] >= 0
    [] h.op = "local_overlap" -> h.num >= 0 /\ h.num <= h.d1 * h.d2
    [] OTHER -> TRUE
\* the frame: nothing but a call's target (or, for region measurements, the
\* gauge of its two operands) changes, and no object disappears
Frame == [][ hist' # hist =>
   LET h == hist'[Len(hist')] IN
   /\ Len(pool') >= Len(pool)
   /\ \A i \in 1..Len(pool) :
        \/ pool'[i] = pool[i]
        \/ h.op \in {"local_overlap", "approx_overlap"} /\ i \in {h.i, h.j} /\ pool'[i].v = pool[i].v
        \/ "target" \in DOMAIN h /\ h.target = i ]_vars
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
