-------------------------------- MODULE Named --------------------------------
(***************************************************************************)
(* The example states by their names: Bell states, product states along z  *)
(* and x, and the spin-one valence-bond (AKLT) chain.  The valence-bond    *)
(* chain is specified twice: as the state annihilated by every projector   *)
(* onto spin two of two neighbours, built from singlets, and through its   *)
(* correlations; transitions grow the chain and measure.                   *)
(***************************************************************************)
EXTENDS MPS, Json, SequencesExt
CONSTANTS SeedLo, SeedHi, MaxL
VARIABLES seed, ends, amp, n, hist
vars == <<seed, ends, amp, n, hist>>
\* integer amplitudes, first site most significant
Bell == << <<1, 0, 0, 1>>, <<-1, 0, 0, 1>>, <<0, 1, 1, 0>>, <<0, -1, 1, 0>> >>
AlongZ == << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>
AlongX == << <<1, 1, 1, 1>>, <<1, -1, 1, -1>>, <<1, 1, -1, -1>>, <<1, -1, -1, 1>> >>

(* -------------------------- valence-bond chain --------------------------- *)
\* two halves of a site in the unnormalised symmetric basis: both up, one of each, both down
\* weight of label m given the halves a (left), b (right); the middle state carries 1/sqrt(2) (restored by the reader)
Sym(m, a, b) == IF m = 0 THEN (IF a = 0 /\ b = 0 THEN 1 ELSE 0)
                ELSE IF m = 1 THEN (IF a # b THEN 1 ELSE 0)
                ELSE (IF a = 1 /\ b = 1 THEN 1 ELSE 0)
\* a singlet between the right half of a site and the left half of the next
Singlet(b, a) == IF b = 0 /\ a = 1 THEN 1 ELSE IF b = 1 /\ a = 0 THEN -1 ELSE 0
\* amplitudes of the chain of k sites, by the outer halves: row label -> right half
RECURSIVE Walk(_, _, _)
Walk(lab, left, k) == \* vector over the right half after the labels lab[1..k]
  IF k = 1 THEN TLCEval([b \in 1..2 |-> Sym(lab[1], left, b-1)])
  ELSE LET w == Walk(lab, left, k-1) IN
       TLCEval([b \in 1..2 |-> w[1]*Singlet(0, 1)*Sym(lab[k], 1, b-1) + w[2]*Singlet(1, 0)*Sym(lab[k], 0, b-1)])
Labels(k) == Pow(3, k)
LabOf(t, k) == TLCEval([j \in 1..k |-> ((t-1) \div Pow(3, k-j)) % 3])
Chain3(k, l, r) == TLCEval([t \in 1..Labels(k) |-> Walk(LabOf(t, k), l, k)[r+1]])

(* ----------------------------- transitions ------------------------------- *)
Grow == /\ n < MaxL
        /\ n' = n + 1
        /\ \E e \in {ends} : \E v \in {Chain3(n+1, e[1], e[2])} : amp' = v /\ hist' = Append(hist, [n |-> n+1, amp |-> v])
        /\ UNCHANGED <<seed, ends>>
Next == Grow
Init == /\ seed \in SeedLo..SeedHi /\ n = 1
        /\ ends = <<seed % 2, (seed \div 2) % 2>>
        /\ amp = Chain3(1, seed % 2, (seed \div 2) % 2)
        /\ hist = <<[n |-> 1, amp |-> Chain3(1, seed % 2, (seed \div 2) % 2)]>>
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model -------------------------- *)
Orthogonal(f) == \A i, j \in 1..4 : (SumSeq([k \in 1..4 |-> f[i][k]*f[j][k]]) = 0) <=> (i # j)
Families4 == Orthogonal(Bell) /\ Orthogonal(AlongZ) /\ Orthogonal(AlongX)
\* spin two of two neighbours, in labels: five integer covectors; the reader's middle weights: a label
\* with k middle sites carries 2^(-k/2), so the covectors carry 2^(k/2) times symmetric coefficients
\* |2,m> of two spins one: m=2: ++ ; m=1: +0,0+ ; m=0: +-,2*00,-+ (with the weights put back: +- and -+ and 00+00)
Two == << << <<0, 0, 1>> >>, << <<0, 1, 1>>, <<1, 0, 1>> >>, << <<0, 2, 1>>, <<1, 1, 1>>, <<2, 0, 1>> >>, << <<1, 2, 1>>, <<2, 1, 1>> >>, << <<2, 2, 1>> >> >>
\* amplitude given to the spin-two state by sites k, k+1, the others fixed
NoSpinTwo == n >= 2 => \A v \in {amp} : \A k \in 0..(n-2) : \A c \in 1..5 : \A t \in 1..Labels(n) :
   (Block(t, 3, n, k, 2) = 0) =>
     SumSeq([z \in 1..Len(Two[c]) |-> Two[c][z][3] * v[SetBlock(t, 3, n, k, 2, Two[c][z][1]*3 + Two[c][z][2])]]) = 0
\* hidden order: with middle labels removed the others alternate
Alternates(lab) == LET s == SelectSeq(lab, LAMBDA m : m # 1) IN \A i \in 1..(Len(s)-1) : s[i] # s[i+1]
HiddenOrder == \A v \in {amp} : \A t \in 1..Labels(n) : v[t] # 0 => Alternates(LabOf(t, n))
EmitAtEnd == n = MaxL => PrintT(<<"XV", ToJson([seed |-> seed, ends |-> ends, hist |-> hist, bell |-> Bell, z |-> AlongZ, x |-> AlongX])>>)
=============================================================================
