-------------------------------- MODULE Traj --------------------------------
(***************************************************************************)
(* A finite trajectory: the state it started from, the current state, the  *)
(* states it recorded (with their bond dimensions), and the states exact   *)
(* diagonalisation recorded.  A state is the word of operations that led   *)
(* to it from the initial state; what one operation does to a state is     *)
(* decided elsewhere (Flow.tla, Truncate.tla), here only which states are  *)
(* visited, recorded, reported, in which order.                            *)
(*                                                                         *)
(* A run over n time points records n states: the current one and the ones *)
(* after each of the first n-1 steps, and the last recorded one becomes    *)
(* the current one.                                                        *)
(***************************************************************************)
EXTENDS MPS, Json

CONSTANTS SeedLo, SeedHi, Depth, Branch, MaxL, Kinds

VARIABLES seed, init, cur, rec, ds, ed, hist
vars == <<seed, init, cur, rec, ds, ed, hist>>

KindSeq == <<"euler", "rk4", "odeint", "ed", "expand", "contract", "clear",
             "list", "evs", "energies", "schmidts", "loschmidt", "entropy", "edevs", "edenergies">>
AllKinds == {KindSeq[i] : i \in 1..Len(KindSeq)}
Runs == {"euler", "rk4", "odeint"}
Queries == {"list", "evs", "energies", "schmidts", "loschmidt", "entropy", "edevs", "edenergies"}

H(c, i) == Rnd(c.s, 20000 + 97*c.n + i)
Full(c) == Pow(c.d, c.L \div 2)

\* a state: word of operations, largest bond, and how much of that bond is
\* really used (less after padding with zeros: the equations of motion are
\* singular there)
St(w, D, used) == [w |-> w, D |-> D, used |-> used]
Ok(x) == x.used = x.D
Step(x, name, dt) == St(Append(x.w, <<name, dt>>), x.D, x.used)
RECURSIVE Visit(_, _, _, _)
Visit(x, name, dt, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Visit(Step(x, name, dt), name, dt, n-1)
\* exact evolution explores every bond
EdStep(x, name, dt, c) == St(Append(x.w, <<name, dt>>), Full(c), Full(c))
RECURSIVE EdVisit(_, _, _, _)
EdVisit(x, dt, n, c) == IF n = 0 THEN <<>> ELSE <<x>> \o EdVisit(EdStep(x, "ed", dt, c), dt, n-1, c)

\* the history the derived lists are about, when only one of them is there
Both(c) == c.rec # <<>> /\ c.ed # <<>>
Told(c) == IF c.rec # <<>> THEN c.rec ELSE c.ed

Fits(kind, c) ==
  CASE kind \in Runs -> Ok(c.cur)
    [] kind = "ed" -> (c.d = 2 \/ c.full)
    [] kind = "expand" -> c.cur.D < Full(c) /\ Ok(c.cur)
    [] kind = "contract" -> c.cur.D > 1
    [] kind = "clear" -> TRUE
    [] kind \in {"list", "evs", "energies"} -> Told(c) # <<>>
    [] kind \in {"schmidts", "loschmidt", "entropy"} -> Told(c) # <<>> /\ ~Both(c)
    [] kind = "edevs" -> c.ed # <<>>
    [] kind = "edenergies" -> c.ed # <<>> /\ (c.d = 2 \/ c.full)

Call(kind, c) ==
  LET n == 2 + (H(c, 1) % 3)  dt == 1 + (H(c, 2) % 3)  D == c.cur.D IN
  CASE kind \in Runs ->
         LET v == TLCEval(Visit(c.cur, kind, dt, n)) IN
         [log |-> [op |-> kind, n |-> n, dt |-> dt], cur |-> v[n], rec |-> c.rec \o v, ed |-> c.ed,
          ds |-> Front(c.ds) \o [i \in 1..n |-> D] \o <<D>>]
    [] kind = "ed" ->
         LET v == TLCEval(EdVisit(c.cur, dt, n, c)) IN
         [log |-> [op |-> kind, n |-> n, dt |-> dt], cur |-> v[n], rec |-> c.rec, ed |-> v,
          ds |-> Append(Front(c.ds), Full(c))]
    [] kind = "expand" ->
         LET D1 == D + 1 + (H(c, 3) % (Full(c) - D)) IN
         [log |-> [op |-> kind, D |-> D1], cur |-> St(Append(c.cur.w, <<kind, D1>>), D1, D), rec |-> c.rec, ed |-> c.ed,
          ds |-> Append(Front(c.ds), D1)]
    [] kind = "contract" ->
         LET D1 == 1 + (H(c, 3) % c.cur.used) IN
         [log |-> [op |-> kind, D |-> D1],
          cur |-> St(Append(c.cur.w, <<kind, D1>>), D1, D1), rec |-> c.rec, ed |-> c.ed,
          ds |-> Append(Front(c.ds), D1)]
    [] kind = "clear" ->
         [log |-> [op |-> kind], cur |-> St(<<>>, c.D0, c.D0), rec |-> <<>>, ed |-> <<>>, ds |-> <<c.D0>>]
    [] kind \in Queries ->
         [log |-> [op |-> kind, k |-> H(c, 4) % c.L,
                   len |-> Len(IF kind \in {"edevs", "edenergies"} THEN c.ed ELSE Told(c))],
          cur |-> c.cur, rec |-> c.rec, ed |-> c.ed, ds |-> c.ds]

(* ------------------------------ the machine ----------------------------- *)
Now == [s |-> seed, n |-> Len(hist), d |-> init.d, L |-> init.L, D0 |-> init.D, full |-> init.full,
        cur |-> cur, rec |-> rec, ed |-> ed, ds |-> ds]
Do(kind) ==
  /\ Len(hist) < Depth
  /\ kind \in Kinds
  /\ \E c \in {Now} :
       /\ Fits(kind, c)
       /\ Branch \/ LET en == SelectSeq(KindSeq, LAMBDA q : q \in Kinds /\ Fits(q, c))
                    IN en[1 + (Rnd(c.s, 60000 + 13*c.n) % Len(en))] = kind
       /\ \E r \in {TLCEval(Call(kind, c))} :
            /\ cur' = r.cur /\ rec' = r.rec /\ ed' = r.ed /\ ds' = r.ds
            /\ hist' = Append(hist, r.log @@ [nrec |-> Len(r.rec), ned |-> Len(r.ed), ds |-> r.ds])
  /\ UNCHANGED <<seed, init>>
Evolve == Do("euler") \/ Do("rk4") \/ Do("odeint")
Exact == Do("ed")
Resize == Do("expand") \/ Do("contract")
Clear == Do("clear")
Report == Do("list") \/ Do("evs") \/ Do("energies") \/ Do("schmidts") \/ Do("loschmidt") \/ Do("entropy")
          \/ Do("edevs") \/ Do("edenergies")
Next == Evolve \/ Exact \/ Resize \/ Clear \/ Report

InitOf(s) ==
  LET d == IF Rnd(s, 1) % 5 = 0 THEN 3 ELSE 2
      L == 2 + (Rnd(s, 2) % ((IF d = 3 THEN Min2(3, MaxL) ELSE MaxL) - 1))
      D == 1 + (Rnd(s, 3) % Pow(d, L \div 2))
      bs == StdBonds(d, L, D)
      As == RndChain(s, d, L, bs, 2)
      v == TLCEval(Dense(As))
  IN [d |-> d, L |-> L, D |-> D, full |-> Rnd(s, 4) % 3 = 0, tensors |-> As,
      bonds |-> bs, ranks |-> IF IsZeroVec(v) THEN <<>> ELSE TLCEval([k \in 1..(L+1) |-> SchmidtRank(v, d, L, k-1)]),
      H |-> TLCEval([k \in 1..(L-1) |-> RndHerm(s, 900 + 50*k, d*d, 1)])]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
   /\ c.ranks = c.bonds                 \* every bond is needed
   /\ seed = s /\ init = c /\ cur = St(<<>>, c.D, c.D) /\ rec = <<>> /\ ds = <<c.D>> /\ ed = <<>> /\ hist = <<>>
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
DsMatch == /\ Len(ds) = Len(rec) + 1
           /\ \A i \in 1..Len(rec) : ds[i] = rec[i].D
           /\ ds[Len(ds)] = cur.D
\* recorded words only get longer within a run, one step at a time, or start
\* from where the trajectory was
Chronological == \A i \in 1..(Len(rec)-1) : IsPrefix(rec[i].w, rec[i+1].w)
LastIsCurrent == (hist # <<>> /\ hist[Len(hist)].op \in Runs) => cur = rec[Len(rec)]
Cleared == (hist # <<>> /\ hist[Len(hist)].op = "clear") => cur.w = <<>> /\ rec = <<>> /\ ed = <<>>
\* histories are only extended or cleared
Grow == [][hist' # hist => (IsPrefix(rec, rec') \/ (hist'[Len(hist')].op = "clear" /\ rec' = <<>>))]_vars
\* reports change nothing
Quiet == [][(hist' # hist /\ hist'[Len(hist')].op \in Queries) => (UNCHANGED <<cur, rec, ed, ds>>)]_vars
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
