-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Objects, packed vectors and files.  An object is a chain (finite, or    *)
(* the unit cell of an infinite one) with some content: a label that names *)
(* exactly one list of tensors.  Packing and storing copy the label        *)
(* together with the shapes needed to read it back; every change of an     *)
(* object gives it a fresh label.  What is read back is what was last put  *)
(* there, no matter what happened to any object since.                     *)
(***************************************************************************)
EXTENDS MPS, Json
CONSTANTS SeedLo, SeedHi, Depth
VARIABLES seed, objs, vecs, files, next, hist
vars == <<seed, objs, vecs, files, next, hist>>

Slots == 1..3
Names == <<"a", "b">>
None == [cls |-> "none"]

\* profiles an unstructured file can describe
IsStd(o) == o.cls = "i" \/ o.bs = StdBonds(o.d, o.L, FoldLeft(Max2, 1, o.bs))
MaxOf(o) == FoldLeft(Max2, 1, o.bs)

Sit == [s |-> seed, n |-> Len(hist), objs |-> objs, vecs |-> vecs, files |-> files, next |-> next]
H(c, i) == Rnd(c.s, 5000 + 41*c.n + i)

NewObj(c, tag) ==
  LET cls == IF H(c, 11) % 4 = 0 THEN "i" ELSE "f"
      d0 == Pick(c.s, 5012 + 41*c.n, <<2, 2, 3, 4, 1>>)
      p == 1 + (H(c, 13) % 2)
      D == Pick(c.s, 5014 + 41*c.n, <<1, 2, 3, 4, 7>>)
      L0 == Pick(c.s, 5015 + 41*c.n, <<1, 2, 3, 4, 5, 4, 3, 2, 11>>)
      std == H(c, 16) % 2 = 0
      bs == IF cls = "i" THEN [k \in 1..(p+1) |-> D]
            ELSE IF d0 = 1 THEN FlatBonds(L0, 1)
            ELSE IF std THEN StdBonds(d0, L0, D) ELSE RndBonds(c.s + c.n, L0, 4)
      n == IF cls = "i" THEN p ELSE L0
      As == IF H(c, 17) % 3 = 0 THEN RndRealChain(c.s + 7*c.n, d0, n, bs, 9) ELSE RndChain(c.s + 7*c.n, d0, n, bs, 9)
      v == IF cls = "f" /\ std /\ d0 > 1 /\ Pow(d0, n) <= 64 THEN TLCEval(Dense(TLCEval(RndChain(c.s + 7*c.n, d0, n, bs, 1)))) ELSE <<>>
      \* one coefficient per site inside wide bonds: cutting leaves a product state and narrow bonds
      thin == cls = "f" /\ std /\ H(c, 18) % 4 = 0
      Thin == TLCEval([k \in 1..n |-> TLCEval([s \in 1..d0 |-> TLCEval([i \in 1..bs[k] |-> [j \in 1..bs[k+1] |->
                 IF i = 1 /\ j = 1 THEN (IF s = 1 THEN <<1 + (H(c, 100+k) % 3), 0>> ELSE RndC(c.s, 60*k + s + c.n, 2)) ELSE <<0, 0>>]])])])
  IN [o |-> [cls |-> cls, d |-> d0, L |-> n, bs |-> bs, id |-> tag, thin |-> thin,
             \* every bond carries its whole rank: a sweep with a bound then leaves the standard profile of that bound
             gen |-> cls = "f" /\ ~thin /\ v # <<>> /\ H(c, 17) % 3 # 0 /\ ~IsZeroVec(v) /\ \A k \in 0..n : SchmidtRank(v, d0, n, k) = bs[k+1]],
      As |-> IF thin THEN Thin ELSE IF cls = "f" /\ v # <<>> /\ H(c, 17) % 3 # 0 THEN RndChain(c.s + 7*c.n, d0, n, bs, 1) ELSE As]

Live(c) == {i \in Slots : c.objs[i].cls # "none"}
Put(f, i, x) == [f EXCEPT ![i] = x]
Base(c) == [objs |-> c.objs, vecs |-> c.vecs, files |-> c.files, next |-> c.next]
Some(c, i, S) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = H(c, i) % Cardinality(S)

Do(c, op) ==
  LET tag == c.next
      t == 1 + (H(c, 20) % 3)                      \* where a new object goes
      o == IF Live(c) = {} THEN 1 ELSE Some(c, 21, Live(c))
      Ob == c.objs[o]
      B == Base(c) IN
  CASE op = "new" -> LET z == NewObj(c, tag) IN
         [r |-> [B EXCEPT !.objs = Put(c.objs, t, z.o), !.next = tag + 1],
          log |-> [op |-> op, to |-> t, o |-> z.o, As |-> z.As]]
    [] op = "set" -> LET k == 1 + (H(c, 22) % Ob.L) IN
         [r |-> [B EXCEPT !.objs = Put(c.objs, o, [Ob EXCEPT !.id = tag, !.gen = FALSE, !.thin = FALSE]), !.next = tag + 1],
          log |-> [op |-> op, o |-> o, k |-> k-1, id |-> tag,
                   T |-> TLCEval([s \in 1..Ob.d |-> RndM(c.s, 800 + 31*c.n + 100*s, Ob.bs[k], Ob.bs[k+1], 9)])]]
    [] op = "scale" -> LET a == RndC(c.s, 900 + c.n, 3)  b == IF CZero(a) THEN <<2, 1>> ELSE a IN
         [r |-> [B EXCEPT !.objs = Put(c.objs, t, [Ob EXCEPT !.id = tag]), !.next = tag + 1],
          log |-> [op |-> op, o |-> o, to |-> t, by |-> b, id |-> tag]]
    [] op = "form" ->       \* a sweep, with a bound where the result has a known profile
         LET D == IF Ob.gen THEN 1 + (H(c, 23) % 4) ELSE 0
             Rec == IF Ob.thin THEN [Ob EXCEPT !.id = tag, !.bs = FlatBonds(Ob.L, 1)] ELSE IF Ob.gen THEN [Ob EXCEPT !.id = tag, !.bs = StdBonds(Ob.d, Ob.L, Min2(D, MaxOf(Ob)))] ELSE [Ob EXCEPT !.id = tag] IN
         [r |-> [B EXCEPT !.objs = Put(c.objs, o, Rec), !.next = tag + 1],
          log |-> [op |-> op, o |-> o, D |-> D, sweep |-> Ob.thin \/ Ob.gen, hand |-> IF H(c, 24) % 2 = 0 THEN "l" ELSE "r", id |-> tag, bs |-> Rec.bs]]
    [] op = "pack" -> LET v == 1 + (H(c, 25) % 2)  real == H(c, 26) % 2 = 0 IN
         [r |-> [B EXCEPT !.vecs = Put(c.vecs, v, [Ob EXCEPT !.gen = real])], log |-> [op |-> op, o |-> o, v |-> v, real |-> real]]
    [] op = "unpack" -> LET v == 1 + (H(c, 25) % 2)  Rec == c.vecs[v] IN
         IF Rec.cls = "none" THEN [r |-> B, log |-> [op |-> "skip"]]
         ELSE [r |-> [B EXCEPT !.objs = Put(c.objs, t, [Rec EXCEPT !.gen = FALSE])],
               log |-> [op |-> op, v |-> v, to |-> t, real |-> Rec.gen, o |-> Rec, D |-> MaxOf(Rec),
                        shapes |-> Rec.cls = "f" /\ (~IsStd(Rec) \/ H(c, 27) % 3 = 0)]]
    [] op = "store" -> LET f == 1 + (H(c, 28) % 2)  structured == Ob.cls = "f" /\ (~IsStd(Ob) \/ H(c, 29) % 3 = 0) IN
         [r |-> [B EXCEPT !.files = Put(c.files, f, [Ob EXCEPT !.gen = structured])],
          log |-> [op |-> op, o |-> o, f |-> Names[f], suffix |-> H(c, 30) % 2 = 0, structured |-> structured]]
    [] op = "load" -> LET f == 1 + (H(c, 28) % 2)  Rec == c.files[f] IN
         IF Rec.cls = "none" THEN [r |-> B, log |-> [op |-> "skip"]]
         ELSE [r |-> [B EXCEPT !.objs = Put(c.objs, t, [Rec EXCEPT !.gen = FALSE])],
               log |-> [op |-> op, f |-> Names[f], to |-> t, structured |-> Rec.gen, o |-> Rec, D |-> MaxOf(Rec),
                        \* read through a live object of that class, or a new one
                        via |-> LET S == {i \in Live(c) : c.objs[i].cls = Rec.cls /\ i # t} IN
                                IF Rec.cls = "f" /\ S # {} /\ H(c, 31) % 2 = 0 THEN Some(c, 32, S) ELSE 0]]

Ops == <<"store", "pack", "load", "unpack", "new", "set", "form", "store", "load", "scale", "unpack", "form", "load">>
OpOf(c) == IF c.n < 2 \/ Live(c) = {} THEN "new" ELSE Pick(c.s, 5000 + 41*c.n, Ops)
Step(op) ==
  /\ Len(hist) < Depth
  /\ \E c \in {Sit} :
       /\ OpOf(c) = op
       /\ \E z \in {TLCEval(Do(c, op))} :
            /\ objs' = z.r.objs /\ vecs' = z.r.vecs /\ files' = z.r.files /\ next' = z.r.next
            /\ hist' = Append(hist, z.log)
  /\ UNCHANGED seed
Next == \/ Step("new")
        \/ Step("set")
        \/ Step("scale")
        \/ Step("form")
        \/ Step("pack")
        \/ Step("unpack")
        \/ Step("store")
        \/ Step("load")
Init == seed \in SeedLo..SeedHi /\ objs = [i \in Slots |-> None] /\ vecs = [i \in 1..2 |-> None]
        /\ files = [i \in 1..2 |-> None] /\ next = 1 /\ hist = <<>>
Spec == Init /\ [][Next]_vars

(* ------------------------- checked on the model ------------------------- *)
\* replaying the log alone: which content an object has at step n
RECURSIVE IdAt(_, _), FileAt(_, _), VecAt(_, _)
IdAt(i, n) == IF n = 0 THEN 0 ELSE LET h == hist[n] IN
   IF h.op = "new" /\ h.to = i THEN h.o.id
   ELSE IF h.op \in {"set", "form"} /\ h.o = i THEN h.id
   ELSE IF h.op = "scale" /\ h.to = i THEN h.id
   ELSE IF h.op = "unpack" /\ h.to = i THEN VecAt(h.v, n-1)
   ELSE IF h.op = "load" /\ h.to = i THEN FileAt(h.f, n-1)
   ELSE IdAt(i, n-1)
FileAt(f, n) == IF n = 0 THEN 0 ELSE LET h == hist[n] IN
   IF h.op = "store" /\ h.f = f THEN IdAt(h.o, n-1) ELSE FileAt(f, n-1)
VecAt(v, n) == IF n = 0 THEN 0 ELSE LET h == hist[n] IN
   IF h.op = "pack" /\ h.v = v THEN IdAt(h.o, n-1) ELSE VecAt(v, n-1)
LastPut == Len(hist) > 0 =>
   /\ \A i \in Slots : objs[i].cls # "none" => objs[i].id = IdAt(i, Len(hist))
   /\ \A f \in 1..2 : files[f].cls # "none" => files[f].id = FileAt(Names[f], Len(hist))
\* what is stored without its structure can be read back without it
Readable == \A f \in 1..2 : files[f].cls # "none" => files[f].gen \/ IsStd(files[f])
\* one content, one list of shapes
OneShape == \A i, j \in Slots : (objs[i].cls # "none" /\ objs[j].cls # "none" /\ objs[i].id = objs[j].id) =>
   objs[i].bs = objs[j].bs /\ objs[i].d = objs[j].d
EmitAtEnd == Len(hist) = Depth => PrintT(<<"XV", ToJson([seed |-> seed, hist |-> hist])>>)
=============================================================================
