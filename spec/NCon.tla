-------------------------------- MODULE NCon --------------------------------
(***************************************************************************)
(* Contraction of a tensor network.  A network is a sequence of tensors    *)
(* [dims, data, inds]: positive labels join two legs, negative labels are  *)
(* open legs.  What a network denotes is the sum over all values of the    *)
(* joined labels of the product of entries.  The machine contracts one     *)
(* label at a time in any order, and two unconnected parts by an outer     *)
(* product; what it denotes never changes (the invariant Same).            *)
(*                                                                         *)
(* A second kind of step damages the request; the verdict says whether the *)
(* result still is a network.                                              *)
(***************************************************************************)
EXTENDS Flat, Json
CONSTANTS SeedLo, SeedHi, Branch, MaxT, Damage
VARIABLES seed, net, req, order, val, phase
vars == <<seed, net, req, order, val, phase>>

(* ------------------------------ denotation ------------------------------ *)
Labels(nt) == UNION {{nt[t].inds[a] : a \in 1..Len(nt[t].inds)} : t \in 1..Len(nt)}
Joined(nt) == {x \in Labels(nt) : x > 0}
Open(nt) == {x \in Labels(nt) : x < 0}
Ends(nt, x) == {<<t, a>> \in (1..Len(nt)) \X (1..10) : a <= Len(nt[t].inds) /\ nt[t].inds[a] = x}
DimOf(nt, x) == LET e == CHOOSE e \in Ends(nt, x) : TRUE IN nt[e[1]].dims[e[2]]
\* the value with open legs in the order fo
Value(nt_, fo_) ==
  LET nt == TLCEval(nt_)  fo == TLCEval(fo_)
      js == TLCEval(SetToSeq(Joined(nt)))
      jd == TLCEval([i \in 1..Len(js) |-> DimOf(nt, js[i])])
      od == TLCEval([i \in 1..Len(fo) |-> DimOf(nt, fo[i])])
      \* for every tensor leg: position among the open or joined labels
      ref == TLCEval([t \in 1..Len(nt) |-> TLCEval([a \in 1..Len(nt[t].inds) |->
                LET x == nt[t].inds[a] IN
                IF x < 0 THEN CHOOSE i \in 1..Len(fo) : fo[i] = x
                ELSE Len(fo) + (CHOOSE i \in 1..Len(js) : js[i] = x)])])
      Term(ds) == FoldLeft(LAMBDA acc, t :
                     IF CZero(acc) THEN acc
                     ELSE CMul(acc, At(nt[t], [a \in 1..Len(nt[t].inds) |-> ds[ref[t][a]]])), C1, [t \in 1..Len(nt) |-> t])
  IN Tens(od, LAMBDA o : CSumSeq(TLCEval([n \in 1..Prod(jd) |-> Term(TLCEval(o \o Digits(n-1, jd)))])))

(* -------------------------------- steps --------------------------------- *)
Without(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))
\* trace of label x on tensor t: remaining legs in order
TraceOn(t, x) ==
  LET ps == {a \in 1..Len(t.inds) : t.inds[a] = x}
      keep == SelectSeq([a \in 1..Len(t.inds) |-> a], LAMBDA a : a \notin ps)
      n == t.dims[CHOOSE a \in ps : TRUE]
      r == Tens([i \in 1..Len(keep) |-> t.dims[keep[i]]],
                LAMBDA ds : CSumSeq(TLCEval([v \in 1..n |->
                   At(t, [a \in 1..Len(t.inds) |-> IF a \in ps THEN v-1 ELSE ds[CHOOSE i \in 1..Len(keep) : keep[i] = a]])])))
  IN [dims |-> r.dims, data |-> r.data, inds |-> TLCEval([i \in 1..Len(keep) |-> t.inds[keep[i]]])]
\* outer product of two tensors
Outer(s, t) == [dims |-> s.dims \o t.dims, inds |-> s.inds \o t.inds,
                data |-> TLCEval([n \in 1..(Len(s.data)*Len(t.data)) |->
                   CMul(s.data[1 + ((n-1) \div Len(t.data))], t.data[1 + ((n-1) % Len(t.data))])])]
\* join label x between different tensors s and t: sum over it
Join(s, t, x) == TraceOn(Outer(s, t), x)
Contracted(nt, x) ==
  LET ts == {e[1] : e \in Ends(nt, x)} IN
  IF Cardinality(ts) = 1
  THEN LET t == CHOOSE t \in ts : TRUE IN [nt EXCEPT ![t] = TLCEval(TraceOn(nt[t], x))]
  ELSE LET t == CHOOSE t \in ts : \A u \in ts : t <= u
           u == CHOOSE u \in ts : u # t
       IN Append(Without(Without(nt, u), t), TLCEval(Join(nt[t], nt[u], x)))

(* --------------------------- well-formedness ---------------------------- *)
\* tensors and index lists may disagree in a damaged request
Legal(r) ==
  /\ Len(r.lists) = Len(r.shapes)
  /\ \A t \in 1..Len(r.lists) : Len(r.lists[t]) = Len(r.shapes[t])
  /\ LET all == UNION {{<<t, a>> : a \in 1..Len(r.lists[t])} : t \in 1..Len(r.lists)}
         Where(x) == {e \in all : r.lists[e[1]][e[2]] = x}
         xs == {r.lists[e[1]][e[2]] : e \in all}
     IN \A x \in xs :
          \/ x < 0 /\ Cardinality(Where(x)) = 1
          \/ x > 0 /\ Cardinality(Where(x)) = 2
             /\ \A e, f \in Where(x) : r.shapes[e[1]][e[2]] = r.shapes[f[1]][f[2]]
RndAt(s, i, k) == Rnd(s, 3000 + 17*i) % k
Damaged(s, r) ==
  LET nt == Len(r.lists)
      t == 1 + RndAt(s, 1, nt)
      n == Len(r.lists[t])
      a == IF n = 0 THEN 0 ELSE 1 + RndAt(s, 2, n)
      way == RndAt(s, 3, 6)
  IN CASE way = 0 -> [r EXCEPT !.lists = Without(r.lists, t)]                       \* one list missing
       [] way = 1 -> [r EXCEPT !.lists = Append(r.lists, <<-77>>)]                  \* one list too many
       [] way = 2 /\ n > 0 -> [r EXCEPT !.lists[t] = Without(r.lists[t], a)]        \* a leg without a label
       [] way = 3 /\ n > 0 -> [r EXCEPT !.lists[t][a] = (IF @ > 0 THEN @ + 50 ELSE 60)]   \* a dangling joined label
       [] way = 4 /\ n > 0 -> [r EXCEPT !.lists[t][a] =                              \* another tensor's label repeated
                                 LET u == 1 + RndAt(s, 4, nt) IN IF r.lists[u] = <<>> THEN @ ELSE r.lists[u][1 + RndAt(s, 5, Len(r.lists[u]))]]
       [] way = 5 /\ n > 0 -> [r EXCEPT !.shapes[t][a] = @ + 1]                     \* dimensions that do not match
       [] OTHER -> [r EXCEPT !.lists[t] = Append(@, -88)]                           \* a label without a leg

(* ------------------------------- machine -------------------------------- *)
\* a network drawn from a seed
Make(s) ==
  LET nt == 1 + (Rnd(s, 1) % MaxT)
      nj == Rnd(s, 2) % (nt + 2)
      no == Rnd(s, 3) % 4
      stride == Pick(s, 4, <<1, 1, 3, 7>>)
      jl == RndPerm(s, 50, Max2(nj, 1))        \* label numbers permuted
      Dim(i) == RndIn(s, 80 + i, 1, IF nj + no > 5 THEN 2 ELSE 3)
      \* leg ends: joined ones twice, open ones once
      ends == TLCEval([e \in 1..(2*nj + no) |->
         IF e <= 2*nj THEN [t |-> 1 + (Rnd(s, 200 + e) % nt), x |-> 1 + stride*(jl[(e+1) \div 2] - 1), d |-> Dim((e+1) \div 2)]
         ELSE [t |-> 1 + (Rnd(s, 200 + e) % nt), x |-> -(e - 2*nj), d |-> Dim(e)]])
      sh == RndPerm(s, 300, Max2(Len(ends), 1))   \* legs shuffled
      mix == IF ends = <<>> THEN <<>> ELSE TLCEval([e \in 1..Len(ends) |-> ends[sh[e]]])
  IN TLCEval([t \in 1..nt |->
        LET mine == SelectSeq(mix, LAMBDA e : e.t = t)
            r == RndT(s, 1000*t, [i \in 1..Len(mine) |-> mine[i].d], 2)
        IN [dims |-> r.dims, data |-> r.data, inds |-> TLCEval([i \in 1..Len(mine) |-> mine[i].x])]])
FOrder(s, nt) ==
  LET no == Cardinality(Open(nt)) IN
  IF Rnd(s, 9) % 2 = 0 \/ no = 0 THEN [i \in 1..no |-> -i]
  ELSE LET p == RndPerm(s, 400, no) IN [i \in 1..no |-> -p[i]]
Size(nt) == \A t \in 1..Len(nt) : Len(nt[t].data) <= 250
Legs(nt) == \A t \in 1..Len(nt) : Len(nt[t].inds) <= 7
Total(nt) == FoldSet(LAMBDA x, p : p * DimOf(nt, x), 1, Labels(nt)) <= 2200
Req(nt, fo) == [lists |-> TLCEval([t \in 1..Len(nt) |-> nt[t].inds]),
                shapes |-> TLCEval([t \in 1..Len(nt) |-> nt[t].dims]), forder |-> fo]
Init == \E s \in SeedLo..SeedHi : \E nt \in {TLCEval(Make(s))} :
  /\ Size(nt) /\ Legs(nt) /\ Total(nt)
  /\ \E fo \in {TLCEval(FOrder(s, nt))} :
       /\ seed = s /\ net = nt /\ order = <<>> /\ phase = "run"
       /\ req = [tensors |-> TLCEval([t \in 1..Len(nt) |-> nt[t].data]), r |-> Req(nt, fo), legal |-> TRUE]
       /\ val = Value(nt, fo)
Contract ==
  /\ phase = "run" /\ Joined(net) # {}
  /\ \E x \in (IF Branch THEN Joined(net) ELSE {SetToSeq(Joined(net))[1 + (Rnd(seed, 600 + Len(order)) % Cardinality(Joined(net)))]}) :
       \E nt \in {TLCEval(Contracted(net, x))} :
          Size(nt) /\ Legs(nt) /\ net' = nt /\ order' = Append(order, x)
  /\ UNCHANGED <<seed, req, val, phase>>
Combine ==
  /\ phase = "run" /\ Joined(net) = {} /\ Len(net) > 1
  /\ net' = Append(Without(Without(net, 2), 1), TLCEval(Outer(net[1], net[2])))
  /\ UNCHANGED <<seed, req, order, val, phase>>
Finish ==
  /\ phase = "run" /\ Joined(net) = {} /\ Len(net) = 1
  /\ phase' = "done"
  /\ UNCHANGED <<seed, net, req, order, val>>
Spoil ==
  /\ Damage /\ phase = "run" /\ order = <<>>
  /\ \E r \in {TLCEval(Damaged(seed, req.r))} :
       /\ phase' = "spoilt"
       /\ req' = [req EXCEPT !.r = r, !.legal = Legal(r)]
  /\ UNCHANGED <<seed, net, order, val>>
Next == Contract \/ Combine \/ Finish \/ Spoil
Spec == Init /\ [][Next]_vars

\* every partial contraction denotes the same tensor
Same == phase # "spoilt" => Value(net, req.r.forder) = val
\* a finished contraction holds the value itself
Done == phase = "done" => LET t == net[1] IN
          \/ t.inds = <<>> /\ req.r.forder = <<>> /\ t.data = val.data
          \/ Transpose([dims |-> t.dims, data |-> t.data],
                       [i \in 1..Len(t.inds) |-> CHOOSE a \in 1..Len(t.inds) : t.inds[a] = req.r.forder[i]]) = val
GeneratedIsLegal == phase = "run" => Legal(req.r)
EmitAtEnd == phase \in {"done", "spoilt"} =>
  PrintT(<<"XV", ToJson([seed |-> seed, req |-> req, order |-> order, val |-> val])>>)
=============================================================================
