------------------------------ MODULE Truncate -----------------------------
(***************************************************************************)
(* Schmidt spectra and truncation.  A chain is brought through some gauge  *)
(* changes, then either its Schmidt data is asked for at every cut, or it  *)
(* is truncated to a bond bound.  The model carries, for every cut, the    *)
(* exact integer Gram matrix of the smaller side (whose eigenvalues over   *)
(* the squared norm are the Schmidt weights) and the Schmidt rank.         *)
(***************************************************************************)
EXTENDS MPS, Json

CONSTANTS SeedLo, SeedHi, MaxL, MaxD, Fams, Mode     \* Mode: "cuts" or "trunc"
VARIABLES seed, d, L, psi, init, side, steps, hist
vars == <<seed, d, L, psi, init, side, steps, hist>>

Preps == <<"lcan", "rcan", "lcan0", "rcan0", "mcan", "lorth", "rorth", "morth", "gauge">>
H(i) == Rnd(seed, 40000 + 97*Len(hist) + i)

\* a call that changes the gauge; which side the centre is at afterwards
Prep(op) ==
  /\ Len(hist) < steps
  /\ LET r == Rnd(seed, 40000 + 97*Len(hist)) IN
     /\ Preps[1 + (r % Len(Preps))] = op
     /\ hist' = Append(hist, [op |-> op, k |-> (r \div 16) % L])
  /\ side' = IF op \in {"lcan", "lcan0", "lorth"} THEN "right" ELSE IF op \in {"rcan", "rcan0", "rorth"} THEN "left" ELSE "none"
  /\ UNCHANGED <<seed, d, L, psi, init, steps>>

Data == [grams |-> Grams(psi, d, L), den |-> Norm2(psi), ranks |-> Ranks(psi, d, L)]
Cuts ==
  /\ Mode = "cuts" /\ Len(hist) = steps
  /\ hist' = Append(hist, [op |-> "cuts"] @@ Data)
  /\ UNCHANGED <<seed, d, L, psi, init, side, steps>>
\* the sweep that moves the centre across the whole chain truncates optimally
Truncate ==
  /\ Mode = "trunc" /\ Len(hist) = steps
  /\ LET r == Rnd(seed, 777)  D == 1 + (r % (MaxD + 1))  how == (r \div 8) % 4
         dir == IF side = "right" THEN "rcan" ELSE "lcan" IN
     hist' = Append(hist, [op |-> "trunc", D |-> D, dir |-> dir, side |-> side, how |-> how,
                           k |-> (r \div 32) % L] @@ Data)
  /\ side' = "done"
  /\ UNCHANGED <<seed, d, L, psi, init, steps>>

InitOf(s) ==
  LET dd == IF Rnd(s, 1) % 4 = 0 THEN 3 ELSE 2
      mL == IF dd = 3 THEN Min2(MaxL, 4) ELSE MaxL
      LL == 2 + (Rnd(s, 2) % (mL - 1))
      fam == Pick(s, 3, Fams)
      As == TLCEval(Chain(fam, s, dd, LL, MaxD, 1))
  IN [d |-> dd, L |-> LL, fam |-> fam, As |-> As, v |-> TLCEval(Dense(As))]
Init == \E s \in SeedLo..SeedHi : \E c \in {TLCEval(InitOf(s))} :
   /\ ~IsZeroVec(c.v)
   /\ seed = s /\ d = c.d /\ L = c.L /\ psi = c.v /\ side = "none" /\ hist = <<>>
   /\ steps = (IF Mode = "cuts" THEN Rnd(s, 11) % 3 ELSE Rnd(s, 11) % 4)
   /\ init = [fam |-> c.fam, tensors |-> c.As, psi |-> c.v, d |-> c.d]
Next == \/ Prep("lcan") \/ Prep("rcan") \/ Prep("lcan0") \/ Prep("rcan0") \/ Prep("mcan")
        \/ Prep("lorth") \/ Prep("rorth") \/ Prep("morth") \/ Prep("gauge")
        \/ Cuts
        \/ Truncate
Spec == Init /\ [][Next]_vars

Done == Len(hist) = steps + 1
TracesAgree == Done => LET h == hist[Len(hist)] IN
   \A k \in 1..(L+1) : MTr(h.grams[k]) = <<h.den, 0>> /\ IsHermitian(h.grams[k])
\* a cut's rank is bounded by both sides, neighbouring ranks by a factor d
RankLaws == Done => LET r == hist[Len(hist)].ranks IN
   /\ r[1] = 1 /\ r[L+1] = 1
   /\ \A k \in 1..L : r[k] <= d*r[k+1] /\ r[k+1] <= d*r[k]
   /\ \A k \in 2..L : r[k] <= Cols(init.tensors[k-1][1])
EmitAtEnd == Done => PrintT(<<"XV", ToJson([seed |-> seed, init |-> init, hist |-> hist])>>)
=============================================================================
