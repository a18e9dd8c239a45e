------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Where things are in a tensor product.  One machine regroups the legs of *)
(* a tensor: Group(parts) permutes the legs and merges each part into one  *)
(* leg (its digits in mixed radix, first leg most significant) and pushes  *)
(* what is needed to undo it; Ungroup undoes the last grouping.  The other *)
(* traces subsystems out of a matrix or of a pure state one at a time, in  *)
(* any order.                                                              *)
(***************************************************************************)
EXTENDS Flat, Json
CONSTANTS SeedLo, SeedHi, Depth, Mode
VARIABLES seed, x, stack, hist, init
vars == <<seed, x, stack, hist, init>>

(* ------------------------------ regrouping ------------------------------ *)
\* cut a sequence into consecutive non-empty parts, decided by random bits
RECURSIVE Cut(_, _, _)
Cut(s, i, q) == IF Len(q) = 0 THEN <<>>
  ELSE IF Len(q) = 1 THEN <<q>>
  ELSE LET r == Cut(s, i+1, Tail(q)) IN
       IF Rnd(s, 700 + i) % 2 = 0 THEN <<<<q[1]>>>> \o r
       ELSE <<<<q[1]>> \o r[1]>> \o Tail(r)
Concat(ps) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ps)
\* parts: sequence of sequences of leg numbers (from 1), every leg once
Grouped(t, parts) ==
  LET u == Transpose(t, Concat(parts))
  IN [dims |-> TLCEval([g \in 1..Len(parts) |-> Prod([a \in 1..Len(parts[g]) |-> t.dims[parts[g][a]]])]), data |-> u.data]
\* undo, from the parts and the dimensions before
Ungrouped(t, parts, dims) ==
  LET p == TLCEval(Concat(parts))
      u == [dims |-> TLCEval([a \in 1..Len(p) |-> dims[p[a]]]), data |-> t.data]
  IN Transpose(u, [a \in 1..Len(p) |-> CHOOSE b \in 1..Len(p) : p[b] = a])
Group ==
  /\ Mode = "legs" /\ Len(stack) < Depth
  /\ \E parts \in {TLCEval(Cut(seed, 10*Len(hist), RndPerm(seed, 800 + 10*Len(hist), Len(x.dims))))} :
     \E y \in {TLCEval(Grouped(x, parts))} :
       /\ x' = y
       /\ stack' = Append(stack, [parts |-> parts, was |-> x])
       /\ hist' = Append(hist, [op |-> "group", parts |-> parts, dims |-> y.dims, data |-> y.data])
  /\ UNCHANGED <<seed, init>>
Ungroup ==
  /\ Mode = "legs" /\ stack # <<>> /\ (Len(stack) = Depth \/ Rnd(seed, 900 + Len(hist)) % 3 = 0)
  /\ \E t \in {stack[Len(stack)]} :
     \E y \in {TLCEval(Ungrouped(x, t.parts, t.was.dims))} :
       /\ x' = y
       /\ stack' = SubSeq(stack, 1, Len(stack)-1)
       /\ hist' = Append(hist, [op |-> "ungroup", parts |-> <<>>, dims |-> y.dims, data |-> y.data])
  /\ UNCHANGED <<seed, init>>
Ended == Len(hist) >= 2*Depth

(* ------------------------- partial traces ------------------------------- *)
\* rho on subsystems dims: a tensor with dims \o dims; trace subsystem k
TraceSub(r_, n, k) ==
  LET r == TLCEval(r_)
      keep == TLCEval(SelectSeq([a \in 1..(2*n) |-> a], LAMBDA a : a # k /\ a # n + k))
      dk == r.dims[k]
  IN Tens([i \in 1..Len(keep) |-> r.dims[keep[i]]],
          LAMBDA ds : CSumSeq(TLCEval([v \in 1..dk |->
             At(r, [a \in 1..(2*n) |-> IF a = k \/ a = n + k THEN v-1 ELSE ds[CHOOSE i \in 1..Len(keep) : keep[i] = a]])])))
\* by the definition, all at once; kept: increasing subsystem numbers
Direct(r_, n, kept_) ==
  LET r == TLCEval(r_)  kept == TLCEval(kept_)
      m == Len(kept)
      gone == TLCEval(SelectSeq([a \in 1..n |-> a], LAMBDA a : \A i \in 1..m : kept[i] # a))
      gd == TLCEval([i \in 1..Len(gone) |-> r.dims[gone[i]]])
      PosIn(q, a) == CHOOSE i \in 1..Len(q) : q[i] = a
  IN Tens([i \in 1..(2*m) |-> r.dims[kept[IF i > m THEN i-m ELSE i]]],
          LAMBDA ds : CSumSeq(TLCEval([e \in 1..Prod(gd) |->
             LET g == TLCEval(Digits(e-1, gd)) IN
             At(r, [a \in 1..(2*n) |->
                LET b == IF a > n THEN a-n ELSE a IN
                IF \E i \in 1..m : kept[i] = b THEN ds[PosIn(kept, b) + (IF a > n THEN m ELSE 0)]
                ELSE g[PosIn(gone, b)]])])))
FromPure(u) == [dims |-> u.dims \o u.dims,
                data |-> TLCEval([k \in 1..(Len(u.data)*Len(u.data)) |->
                  CMul(u.data[1 + ((k-1) \div Len(u.data))], CConj(u.data[1 + ((k-1) % Len(u.data))]))])]
Kept == LET n == Len(init.dims) IN SelectSeq([a \in 1..n |-> a], LAMBDA a : \A h \in 1..Len(hist) : hist[h].sub # a)
TraceOut ==
  /\ Mode = "trace" /\ Len(Kept) > 1
  /\ \E kept \in {Kept} : \E i \in 1..Len(kept) :
     \E y \in {TLCEval(TraceSub(x, Len(kept), i))} :
       /\ x' = y
       /\ hist' = Append(hist, [op |-> "trace", sub |-> kept[i]])
  /\ UNCHANGED <<seed, stack, init>>

(* ----------------- operators on two and three factors ------------------- *)
\* entry of A1 (x) A2 (x) ... at row digits rs and column digits cs
Split(s) ==
  LET nf == 2 + (Rnd(s, 11) % 2)
      dm == TLCEval([i \in 1..nf |-> RndIn(s, 20 + i, 1, 3)])
      pr == RndIn(s, 24, 1, 3)  qr == RndIn(s, 25, 1, 3)
  IN [dims |-> dm, ms |-> TLCEval([i \in 1..nf |-> RndM(s, 100*i, dm[i], dm[i], 2)]),
      rect |-> RndM(s, 900, pr, qr, 2), shape |-> <<pr, qr>>]
Kr(ms) == FoldLeft(LAMBDA a, b : MKron(a, b), <<<<C1>>>>, ms)
Next == \/ Group
        \/ Ungroup
        \/ TraceOut
InitOf(s) ==
  IF Mode = "legs"
  THEN LET n == 1 + (Rnd(s, 1) % 5)
           dm == TLCEval([i \in 1..n |-> RndIn(s, 30 + i, 1, IF n > 4 THEN 3 ELSE 4)]) IN [x |-> RndT(s, 100, dm, 5), dims |-> dm, u |-> <<>>, sp |-> <<>>]
  ELSE LET n == 1 + (Rnd(s, 1) % 4)
           dm == TLCEval([i \in 1..n |-> RndIn(s, 30 + i, 1, IF n > 3 THEN 2 ELSE 3)])
           pure == Rnd(s, 2) % 2 = 0
           u == RndT(s, 200, dm, 3)
       IN [x |-> IF pure THEN FromPure(u) ELSE RndT(s, 100, dm \o dm, 3), dims |-> dm, u |-> IF pure THEN u.data ELSE <<>>, sp |-> Split(s)]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
  /\ seed = s /\ x = c.x /\ stack = <<>> /\ hist = <<>>
  /\ init = [dims |-> c.dims, data |-> c.x.data, u |-> c.u, sp |-> c.sp,
             kron |-> IF c.sp = <<>> THEN <<>> ELSE Kr(c.sp.ms)]
Spec == Init /\ [][Next]_vars

\* unwinding the stack gives back what was there
RECURSIVE Unwind(_, _)
Unwind(t, st) == IF st = <<>> THEN t
  ELSE LET e == st[Len(st)] IN Unwind(Ungrouped(t, e.parts, e.was.dims), SubSeq(st, 1, Len(st)-1))
Restores == Mode = "legs" => Unwind(x, stack) = [dims |-> init.dims, data |-> init.data]
\* the same numbers, only elsewhere
SameEntries == Mode = "legs" => Norm2(x.data) = Norm2(init.data) /\ Prod(x.dims) = Len(x.data)
\* one at a time in any order is all at once
Commutes == Mode = "trace" => x = Direct([dims |-> init.dims \o init.dims, data |-> init.data], Len(init.dims), Kept)
FullTrace(t, n) == LET D == Prod(SubSeq(t.dims, 1, n)) IN CSumSeq([i \in 1..D |-> t.data[(i-1)*D + i]])
KeepsTrace == Mode = "trace" => FullTrace(x, Len(Kept)) = FullTrace([dims |-> init.dims \o init.dims, data |-> init.data], Len(init.dims))
Bound == Len(hist) < 2*Depth + 1
Emit == IF Mode = "legs"
        THEN (Len(hist) > 0 /\ stack = <<>>) => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
        ELSE PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist, kept |-> Kept, data |-> x.data])>>)
=============================================================================
