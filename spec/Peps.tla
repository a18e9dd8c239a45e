-------------------------------- MODULE Peps --------------------------------
(***************************************************************************)
(* Finite two-dimensional tensor networks.  A lattice is a sequence of     *)
(* rows of tensors with legs (physical, up, right, down, left); it denotes *)
(* the vector of its amplitudes, sites in reading order, first most        *)
(* significant.  The model keeps both the lattice and the vector; every    *)
(* operation acts on each by its own rule and the two must agree.          *)
(***************************************************************************)
EXTENDS Flat, MPS, Json
CONSTANTS SeedLo, SeedHi, Depth,
          Sums   \* 1: begin with a direct sum, on lattices with an inside
VARIABLES seed, grid, psi, hist, ini
vars == <<seed, grid, psi, hist, ini>>
Rn(s, i, n) == Rnd(s, i) % n
W(g) == Len(g[1])
Ht(g) == Len(g)

(* ------------------------------ contraction ------------------------------ *)
\* the sites read so far, the open legs below every column, the open leg to the right
AddSite(F_, t_, i) ==
  LET F == TLCEval(F_)  t == TLCEval(t_)  w == Len(F.dims) - 2
      d == t.dims[1]  u == t.dims[2]  l == t.dims[5] IN
  Tens(<<F.dims[1]*d>> \o [k \in 1..w |-> IF k = i THEN t.dims[4] ELSE F.dims[1+k]] \o <<t.dims[3]>>,
       LAMBDA ds : CSumSeq(TLCEval([m \in 1..(u*l) |->
          LET c == At(t, <<ds[1] % d, (m-1) \div l, ds[w+2], ds[1+i], (m-1) % l>>) IN
          IF CZero(c) THEN C0
          ELSE CMul(c, At(F, <<ds[1] \div d>> \o [k \in 1..w |-> IF k = i THEN (m-1) \div l ELSE ds[1+k]] \o <<(m-1) % l>>))])))
Contract(g_) == LET g == TLCEval(g_)  w == W(g)  n == w*Ht(g)
                    F0 == [dims |-> TLCEval([k \in 1..(w+2) |-> 1]), data |-> <<C1>>] IN
  FoldLeft(LAMBDA F, k : AddSite(F, g[1 + ((k-1) \div w)][1 + ((k-1) % w)], 1 + ((k-1) % w)), F0, [k \in 1..n |-> k]).data
Dim(g) == g[1][1].dims[1]

(* ------------------------------- operations ------------------------------ *)
\* the same vector with the sites in another order: place k of the new order is place src[k] of the old
Reorder(v_, d, src_) ==
  LET v == TLCEval(v_)  src == TLCEval(src_)  n == Len(src)
      inv == TLCEval([q \in 1..n |-> CHOOSE k \in 1..n : src[k] = q])  dims == TLCEval([k \in 1..n |-> d]) IN
  TLCEval([m \in 1..Len(v) |-> LET ds == Digits(m-1, dims) IN v[1 + Pos([q \in 1..n |-> ds[inv[q]]], dims)]])
Place(w, i, j) == (j-1)*w + i
\* operator on a list of places
OpOn(v_, d, n, places_, O_) ==
  LET v == TLCEval(v_)  O == TLCEval(O_)  ps == TLCEval(places_)  k == Len(ps)
      dims == TLCEval([q \in 1..n |-> d])  small == TLCEval([q \in 1..k |-> d])  m == Pow(d, k) IN
  TLCEval([x \in 1..Len(v) |->
     LET ds == Digits(x-1, dims)  r == 1 + Pos([q \in 1..k |-> ds[ps[q]]], small) IN
     CSumSeq(TLCEval([t \in 1..m |-> IF CZero(O[r][t]) THEN C0 ELSE
        LET es == Digits(t-1, small) IN
        CMul(O[r][t], v[1 + Pos([q \in 1..n |-> IF \E z \in 1..k : ps[z] = q THEN es[CHOOSE z \in 1..k : ps[z] = q] ELSE ds[q]], dims)])]))])
OnTensor(t_, O_) == LET t == TLCEval(t_)  O == TLCEval(O_)  d == t.dims[1] IN
  Tens(t.dims, LAMBDA ds : CSumSeq(TLCEval([s \in 1..d |-> CMul(O[ds[1]+1][s], At(t, <<s-1, ds[2], ds[3], ds[4], ds[5]>>))])))
MapGrid(w, h, F(_, _)) == TLCEval([j \in 1..h |-> TLCEval([i \in 1..w |-> F(i, j)])])
Flip(g_, how) == LET g == TLCEval(g_)  w == W(g)  h == Ht(g) IN
  IF how = "T" THEN MapGrid(h, w, LAMBDA i, j : Transpose(g[i][j], <<1, 5, 4, 3, 2>>))
  ELSE IF how = "R" THEN MapGrid(w, h, LAMBDA i, j : Transpose(g[j][w+1-i], <<1, 2, 5, 4, 3>>))
  ELSE MapGrid(w, h, LAMBDA i, j : Transpose(g[h+1-j][i], <<1, 4, 3, 2, 5>>))
FlipOrder(w, h, how) ==
  IF how = "T" THEN TLCEval([k \in 1..(w*h) |-> Place(w, 1 + ((k-1) \div h), 1 + ((k-1) % h))])
  ELSE IF how = "R" THEN TLCEval([k \in 1..(w*h) |-> Place(w, w - ((k-1) % w), 1 + ((k-1) \div w))])
  ELSE TLCEval([k \in 1..(w*h) |-> Place(w, 1 + ((k-1) % w), h - ((k-1) \div w))])
\* every other row read backwards
SnakeOrder(w, h) == TLCEval([k \in 1..(w*h) |-> LET j == (k-1) \div w  i == (k-1) % w IN j*w + 1 + (IF j % 2 = 0 THEN i ELSE w-1-i)])
\* the block of rows y1..y2: column by column, the columns x1..x2 together
BlockOrder(w, h, y1, y2, x1, x2) ==
  LET row(y, a, b) == TLCEval([i \in 1..(b-a+1) |-> Place(w, a+i-1, y)])
      rows(a, b) == FoldLeft(LAMBDA s, y : s \o row(y, 1, w), <<>>, [y \in 1..(b-a+1) |-> a+y-1])
      col(x) == TLCEval([y \in 1..(y2-y1+1) |-> Place(w, x, y1+y-1)])
      cols(a, b) == FoldLeft(LAMBDA s, x : s \o col(x), <<>>, [x \in 1..(b-a+1) |-> a+x-1])
      mid == FoldLeft(LAMBDA s, y : s \o row(y, x1, x2), <<>>, [y \in 1..(y2-y1+1) |-> y1+y-1]) IN
  rows(1, y1-1) \o cols(1, x1-1) \o mid \o cols(x2+1, w) \o rows(y2+1, h)
\* direct sum over every inner bond
Sum2(a_, b_) == LET a == TLCEval(a_)  b == TLCEval(b_)  w == W(a)  h == Ht(a) IN
  MapGrid(w, h, LAMBDA i, j :
    LET s == a[j][i]  t == b[j][i]
        inner == <<FALSE, j > 1, i < w, j < h, i > 1>> IN
    Tens(TLCEval([q \in 1..5 |-> IF inner[q] THEN s.dims[q] + t.dims[q] ELSE s.dims[q]]),
         LAMBDA ds : IF \A q \in 2..5 : inner[q] => ds[q] < s.dims[q] THEN At(s, ds)
                     ELSE IF \A q \in 2..5 : inner[q] => ds[q] >= s.dims[q] THEN At(t, TLCEval([q \in 1..5 |-> IF inner[q] THEN ds[q] - s.dims[q] ELSE ds[q]]))
                     ELSE C0))
Cut(t, leg, D) == Tens(TLCEval([q \in 1..5 |-> IF q = leg THEN Min2(t.dims[q], D) ELSE t.dims[q]]), LAMBDA ds : At(t, ds))
\* keep the first D values of the bonds named
Truncated(g_, how, k, D) == LET g == TLCEval(g_)  w == W(g)  h == Ht(g) IN
  MapGrid(w, h, LAMBDA i, j : LET t == g[j][i] IN
    CASE how = "above" -> IF j = k-1 THEN Cut(t, 4, D) ELSE IF j = k THEN Cut(t, 2, D) ELSE t
      [] how = "below" -> IF j = k THEN Cut(t, 4, D) ELSE IF j = k+1 THEN Cut(t, 2, D) ELSE t
      [] how = "left"  -> IF i = k THEN Cut(t, 5, D) ELSE IF i = k-1 THEN Cut(t, 3, D) ELSE t
      [] how = "row"   -> IF j = k THEN Cut(Cut(t, 3, D), 5, D) ELSE t
      [] how = "column" -> IF i = k THEN Cut(Cut(t, 2, D), 4, D) ELSE t)
\* every bond of one site
Trimmed(g_, x, y, D) == LET g == TLCEval(g_)  w == W(g)  h == Ht(g) IN
  MapGrid(w, h, LAMBDA i, j : LET t == g[j][i] IN
    IF i = x /\ j = y THEN Cut(Cut(Cut(Cut(t, 2, D), 3, D), 4, D), 5, D)
    ELSE IF i = x /\ j = y-1 THEN Cut(t, 4, D)
    ELSE IF i = x /\ j = y+1 THEN Cut(t, 2, D)
    ELSE IF j = y /\ i = x-1 THEN Cut(t, 3, D)
    ELSE IF j = y /\ i = x+1 THEN Cut(t, 5, D)
    ELSE t)

(* ------------------------------ the lattices ----------------------------- *)
Lattices == << <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<4, 1>>, <<2, 2>>, <<3, 2>>, <<2, 3>>, <<1, 3>>, <<3, 1>>, <<4, 2>>, <<2, 4>>, <<3, 3>> >>
Insides == << <<2, 3>>, <<3, 2>>, <<2, 3>>, <<3, 2>>, <<2, 2>>, <<3, 3>> >>
Room(w, h) == IF w*h <= 4 THEN 3 ELSE IF w*h > 8 THEN 1 ELSE 2
RndGrid(s, w, h, d, M) ==
  LET hb(i, j) == IF i < 1 \/ i >= w THEN 1 ELSE 1 + Rn(s, 100 + 7*i + 31*j, M)
      vb(i, j) == IF j < 1 \/ j >= h THEN 1 ELSE 1 + Rn(s, 500 + 7*i + 31*j, M) IN
  MapGrid(w, h, LAMBDA i, j : RndT(s, 1000 + 200*Place(w, i, j), <<d, vb(i, j-1), hb(i, j), vb(i, j), hb(i-1, j)>>, 1))
\* a chain laid along the rows, every other row backwards
RndLaid(s, n, d) == LET b(k) == IF k = 0 \/ k = n THEN 1 ELSE 1 + Rn(s, 90 + k, 2) IN
  TLCEval([k \in 1..n |-> TLCEval([t \in 1..d |-> RndM(s, 3000 + 100*k + 30*t, b(k-1), b(k), 1)])])
Laid(As, w, h) == LET n == w*h IN
  MapGrid(w, h, LAMBDA i, j :
    LET east == j % 2 = 1
        k == (j-1)*w + (IF east THEN i ELSE w+1-i)
        A == As[k]  l == Len(A[1])  r == Cols(A[1])
        in == IF k = 1 THEN "up" ELSE IF (k-1) \div w = (k-2) \div w THEN (IF east THEN "left" ELSE "right") ELSE "up"
        out == IF k = n THEN "down" ELSE IF (k-1) \div w = k \div w THEN (IF east THEN "right" ELSE "left") ELSE "down"
        dim(side) == IF side = in THEN l ELSE IF side = out THEN r ELSE 1 IN
    Tens(<<Len(A), dim("up"), dim("right"), dim("down"), dim("left")>>,
         LAMBDA ds : LET v(side) == CASE side = "up" -> ds[2] [] side = "right" -> ds[3] [] side = "down" -> ds[4] [] side = "left" -> ds[5] IN
                     A[ds[1]+1][v(in)+1][v(out)+1]))

(* ----------------------------- the transitions --------------------------- *)
H(n, i) == Rnd(seed, 7000 + 53*n + i)
Chg(op, g, v, rec) == /\ grid' = g /\ psi' = v
                      /\ hist' = Append(hist, [op |-> op, psi |-> v] @@ rec)
                      /\ UNCHANGED <<seed, ini>>
Ask(op, rec) == /\ hist' = Append(hist, [op |-> op] @@ rec)
                /\ UNCHANGED <<seed, ini, grid, psi>>
Kind(n) == IF Sums = 1 /\ n = 0 THEN "add" ELSE Pick(seed, 7000 + 53*n, <<"apply", "flip", "flip", "add", "cut", "trim", "E", "E", "Ek", "Ek", "overlap", "snake", "merge", "merge", "env", "iso", "copy">>)
Small == Norm2(psi) < 400000
Apply == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "apply" /\ Small
  /\ \E g \in {grid} : \E v \in {psi} : \E w \in {W(g)} : \E h \in {Ht(g)} : \E d \in {Dim(g)} :
     \E i \in {1 + (H(n, 2) % w)} : \E j \in {1 + (H(n, 3) % h)} : \E O \in {RndM(seed, 300 + 40*n, d, d, 1)} :
       Chg("apply", TLCEval([g EXCEPT ![j][i] = OnTensor(@, O)]), OpOn(v, d, w*h, <<Place(w, i, j)>>, O), [i |-> i, j |-> j, O |-> O])
Turn == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "flip"
  /\ \E g \in {grid} : \E v \in {psi} : \E how \in {<<"T", "R", "U">>[1 + (H(n, 2) % 3)]} :
       Chg(how, Flip(g, how), Reorder(v, Dim(g), FlipOrder(W(g), Ht(g), how)), <<>>)
Add == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "add"
  /\ W(grid) > 1 /\ Ht(grid) > 1
  /\ \/ W(grid)*Ht(grid) <= 6
     \/ W(grid)*Ht(grid) = 9 /\ \A j \in 1..3, i \in 1..3 : Prod(grid[j][i].dims) = Dim(grid)
  /\ \A j \in 1..Ht(grid), i \in 1..W(grid) : Prod(grid[j][i].dims) <= 36
  /\ \E g \in {grid} : \E v \in {psi} :
     \E o \in {RndGrid(seed + 17*n + 5, W(g), Ht(g), Dim(g), IF W(g)*Ht(g) > 6 THEN 1 ELSE IF W(g)*Ht(g) > 4 /\ Sums = 0 THEN 1 + (H(n, 2) % 2) ELSE 2)} :
       Chg("add", Sum2(g, o), VAdd(v, Contract(o)), [other |-> o])
Cutting == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "cut"
  /\ \E g \in {grid} : \E w \in {W(g)} : \E h \in {Ht(g)} :
     \E how \in {<<"above", "below", "left", "row", "column">>[1 + (H(n, 2) % 5)]} :
     \E k \in {CASE how = "above" -> 2 + (H(n, 3) % Max2(h-1, 1)) [] how = "below" -> 1 + (H(n, 3) % Max2(h-1, 1))
                 [] how = "left" -> 2 + (H(n, 3) % Max2(w-1, 1)) [] how = "row" -> 1 + (H(n, 3) % h) [] how = "column" -> 1 + (H(n, 3) % w)} :
     \E D \in {1 + (H(n, 4) % 2)} :
       /\ how \in {"above", "below"} => h > 1
       /\ how = "left" => w > 1
       /\ \E c \in {Truncated(g, how, k, D)} : Chg("cut", c, Contract(c), [how |-> how, k |-> k, D |-> D])
\* a site, or all around it, was cut: the bonds are made to fit again
Trim == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "trim"
  /\ \E g \in {grid} : \E i \in {1 + (H(n, 2) % W(g))} : \E j \in {1 + (H(n, 3) % Ht(g))} : \E D \in {1 + (H(n, 4) % 2)} :
     \E c \in {Trimmed(g, i, j, D)} : Chg("trim", c, Contract(c), [i |-> i, j |-> j, D |-> D, own |-> H(n, 5) % 3])
Expect == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "E" /\ Small
  /\ \E g \in {grid} : \E v \in {psi} : \E w \in {W(g)} : \E h \in {Ht(g)} : \E d \in {Dim(g)} :
     \E i \in {1 + (H(n, 2) % w)} : \E j \in {1 + (H(n, 3) % h)} : \E O \in {RndHerm(seed, 300 + 40*n, d, 1)} :
       Ask("E", [i |-> i, j |-> j, O |-> O, n |-> Norm2(v), e |-> Inner(v, OpOn(v, d, w*h, <<Place(w, i, j)>>, O))[1]])
ExpectBlock == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "Ek" /\ Small
  /\ \E g \in {grid} : \E v \in {psi} : \E w \in {W(g)} : \E h \in {Ht(g)} : \E d \in {Dim(g)} :
     \E x \in {1 + (H(n, 2) % w)} : \E y \in {1 + (H(n, 3) % h)} :
     \E a \in {1 + (H(n, 4) % Min2(3, w+1-x))} : \E b \in {1 + (H(n, 5) % Min2(3, h+1-y))} :
       /\ a*b <= (IF d = 2 THEN 4 ELSE 2)
       /\ \E O \in {RndHerm(seed, 300 + 300*n, Pow(d, a*b), 1)} :
          \E ps \in {TLCEval([k \in 1..(a*b) |-> Place(w, x + ((k-1) % a), y + ((k-1) \div a))])} :
            Ask("Ek", [x |-> x, y |-> y, a |-> a, b |-> b, O |-> O, e |-> Inner(v, OpOn(v, d, w*h, ps, O))[1]])
Overlap == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "overlap" /\ Small
  /\ \E g \in {grid} : \E v \in {psi} : \E o \in {RndGrid(seed + 19*n + 5, W(g), Ht(g), Dim(g), IF W(g)*Ht(g) > 8 THEN 1 ELSE 2)} :
       Ask("overlap", [other |-> o, e |-> Inner(v, Contract(o))])
Snake == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "snake"
  /\ \E g \in {grid} : \E v \in {psi} : Ask("snake", [e |-> Reorder(v, Dim(g), SnakeOrder(W(g), Ht(g)))])
Merge == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "merge"
  /\ \E g \in {grid} : \E v \in {psi} : \E w \in {W(g)} : \E h \in {Ht(g)} :
     \E how \in {<<"rows", "columns", "block">>[1 + (H(n, 6) % 3)]} :
     \E x1 \in {IF how = "rows" THEN 1 ELSE 1 + (H(n, 2) % w)} : \E y1 \in {IF how = "columns" THEN 1 ELSE 1 + (H(n, 3) % h)} :
     \E x2 \in {IF how = "rows" THEN w ELSE x1 + (H(n, 4) % (w+1-x1))} : \E y2 \in {IF how = "columns" THEN h ELSE y1 + (H(n, 5) % (h+1-y1))} :
     \E src \in {IF how = "rows" THEN BlockOrder(w, h, y1, y2, w+1, w) ELSE IF how = "columns" THEN TLCEval([k \in 1..(w*h) |-> k]) ELSE BlockOrder(w, h, y1, y2, x1, x2)} :
       Ask("merge", [how |-> how, x1 |-> x1, x2 |-> x2, y1 |-> y1, y2 |-> y2, e |-> Reorder(v, Dim(g), src)])
Env == LET n == Len(hist) IN
  /\ n < Depth /\ Kind(n) = "env" /\ Small
  /\ \E g \in {grid} : \E v \in {psi} : \E w \in {W(g)} : \E h \in {Ht(g)} : \E d \in {Dim(g)} :
     \E i \in {1 + (H(n, 2) % w)} : \E j \in {1 + (H(n, 3) % h)} : \E O \in {RndHerm(seed, 300 + 40*n, d, 1)} :
       Ask("env", [i |-> i, j |-> j, O |-> O, n |-> Norm2(v), e |-> Inner(v, OpOn(v, d, w*h, <<Place(w, i, j)>>, O))[1]])
Other == LET n == Len(hist) IN
  /\ n < Depth
  /\ \/ Kind(n) \in {"iso", "copy"}
     \/ (Kind(n) \in {"apply", "E", "Ek", "overlap", "env"} /\ ~Small)
     \/ Kind(n) = "Ek"
     \/ Kind(n) \in {"add", "cut"}
  /\ Ask(IF Kind(n) = "iso" THEN "iso" ELSE "copy", [i |-> 1 + (H(n, 2) % W(grid)), j |-> 1 + (H(n, 3) % Ht(grid))])
Next == \/ Apply
        \/ Turn
        \/ Add
        \/ Cutting
        \/ Trim
        \/ Expect
        \/ ExpectBlock
        \/ Overlap
        \/ Snake
        \/ Merge
        \/ Env
        \/ Other
Init == /\ seed \in SeedLo..SeedHi /\ hist = <<>>
        /\ \E sh \in {Pick(seed, 1, IF Sums = 1 THEN Insides ELSE Lattices)} : \E w \in {sh[1]} : \E h \in {sh[2]} :
           \E d \in {IF w*h <= 4 /\ Rn(seed, 2, 4) = 0 THEN 3 ELSE 2} :
           \E kind \in {IF Sums = 1 THEN "free" ELSE <<"free", "free", "free", "chain", "product">>[1 + Rn(seed, 3, 5)]} :
           \E As \in {IF kind = "chain" THEN RndLaid(seed, w*h, d) ELSE <<>>} :
           \E g \in {IF kind = "chain" THEN Laid(As, w, h) ELSE RndGrid(seed, w, h, d, IF kind = "product" THEN 1 ELSE Room(w, h))} :
           \E v \in {Contract(g)} :
             /\ grid = g /\ psi = v
             /\ ini = [w |-> w, h |-> h, d |-> d, kind |-> kind, chain |-> As, grid |-> g, psi |-> v]
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
\* the lattice denotes the vector
Denotes == \A g \in {grid} : \A v \in {psi} : Contract(g) = v
\* bonds match, none at the border
Fits == \A j \in 1..Ht(grid), i \in 1..W(grid) : LET t == grid[j][i].dims IN
   /\ IF j = 1 THEN t[2] = 1 ELSE t[2] = grid[j-1][i].dims[4]
   /\ IF i = 1 THEN t[5] = 1 ELSE t[5] = grid[j][i-1].dims[3]
   /\ j = Ht(grid) => t[4] = 1
   /\ i = W(grid) => t[3] = 1
   /\ t[1] = ini.d
\* a chain laid along the rows is the chain read along the snake
Chained == (hist = <<>> /\ ini.kind = "chain") =>
   \A o \in {ini} : Reorder(o.psi, o.d, SnakeOrder(o.w, o.h)) = Dense(o.chain)
\* flips are involutions
Involutive == hist = <<>> => \A g \in {grid} : \A how \in {"T", "R", "U"} : Flip(Flip(g, how), how) = g
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, hist |-> hist])>>)
=============================================================================
