------------------------------- MODULE Fallback ------------------------------
(***************************************************************************)
(* Robust singular value decompositions.  An operation on a chain makes    *)
(* calls; a call asks the fast driver, and asks the slow one only when the *)
(* fast one did not converge.  Every driver call may succeed, fail to      *)
(* converge, or stop for another reason; all patterns are explored.  The   *)
(* result of the operation is the exact vector, whatever the pattern, or   *)
(* the error that stopped it.                                              *)
(***************************************************************************)
EXTENDS MPS, Json, SequencesExt
CONSTANTS SeedLo, SeedHi, Calls
VARIABLES seed, ini, log, status
vars == <<seed, ini, log, status>>
Ops == <<"lcan", "rcan", "lcan0", "rcan0", "lfrom", "rfrom", "mcan", "vidal", "two", "raw", "raw", "raw">>
\* status: "fast" (asking the fast driver), "slow" (asking the slow one), "diverged", "stopped"
Ask(o) == status = "fast" /\ Len(log) < 2*Calls /\ Cardinality({k \in 1..Len(log) : log[k][1] = "fast"}) < Calls
          /\ log' = Append(log, <<"fast", o>>)
          /\ status' = (CASE o = "ok" -> "fast" [] o = "diverges" -> "slow" [] o = "stops" -> "stopped")
          /\ UNCHANGED <<seed, ini>>
Again(o) == status = "slow"
          /\ log' = Append(log, <<"slow", o>>)
          /\ status' = (IF o = "ok" THEN "fast" ELSE "diverged")
          /\ UNCHANGED <<seed, ini>>
Next == \/ Ask("ok")
        \/ Ask("diverges")
        \/ Ask("stops")
        \/ Again("ok")
        \/ Again("diverges")
RndMatrix(s, n, m, r) == IF r = 0 THEN MZero(n, m) ELSE MMul(RndM(s, 600, n, r, 2), RndM(s, 900, r, m, 2))
Case(s) ==
  LET op == Pick(s, 1, Ops)
      d == IF Rnd(s, 2) % 4 = 0 THEN 3 ELSE 2
      L == 2 + (Rnd(s, 3) % (IF d = 3 THEN 2 ELSE 3))
      fam == Pick(s, 4, Families)
      As == TLCEval(Chain(fam, s, d, L, 3, 1))
      v == TLCEval(Dense(As))
      i == 1 + (Rnd(s, 5) % (L-1))
      O == TLCEval(RndM(s, 700, d*d, d*d, 1))
      n == 1 + (Rnd(s, 6) % 5)  m == 1 + (Rnd(s, 7) % 5)  r == Min2(n, Min2(m, Rnd(s, 8) % 5)) IN
  IF op = "raw" THEN [op |-> op, n |-> n, m |-> m, A |-> RndMatrix(s, n, m, r), full |-> Rnd(s, 9) % 2]
  ELSE [op |-> op, d |-> d, L |-> L, fam |-> fam, tensors |-> As, k |-> Rnd(s, 10) % L,
        i |-> i, O |-> O, psi |-> IF op = "two" THEN ApplyBlock(v, d, L, i-1, 2, O) ELSE v]
Init == /\ seed \in SeedLo..SeedHi /\ log = <<>> /\ status = "fast"
        /\ ini = TLCEval(Case(seed))
        /\ ini.op # "raw" => ~IsZeroVec(ini.psi)
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
\* the slow driver is asked exactly when the fast one did not converge
Backed == \A k \in 1..Len(log) : (log[k][1] = "slow") <=> (k > 1 /\ log[k-1] = <<"fast", "diverges">>)
\* an operation stops only for a reason, and goes on only without one
Honest == /\ (status = "stopped") <=> \E k \in 1..Len(log) : log[k] = <<"fast", "stops">>
          /\ (status = "diverged") <=> \E k \in 1..Len(log) : log[k] = <<"slow", "diverges">>
\* the steps never change what is computed
Frame == [][ini' = ini]_vars
Complete == status \in {"stopped", "diverged"} \/ (status = "fast" /\ Cardinality({k \in 1..Len(log) : log[k][1] = "fast"}) = Calls)
EmitAtEnd == Complete => PrintT(<<"XV", ToJson([seed |-> seed, ini |-> ini, log |-> log, status |-> status])>>)
=============================================================================
