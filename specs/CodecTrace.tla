----------------------------- MODULE CodecTrace -----------------------------
EXTENDS TraceBase, Base64Ops
VARIABLE fs
NSlices == 3
F == INSTANCE FileStore WITH NSlices <- 3, MaxOps <- 0, EmitOn <- FALSE, n <- 0, h <- <<>>
Init == i \in Starts /\ fs = [x \in 0..NSlices |-> <<"none", 0>>]
Step(ev) ==
  \/ ev.op = "enc" /\ UNCHANGED fs      \* a batch of inputs sharing a prefix
     /\ \A k \in DOMAIN ev.ins : IsEnc(ev.ins[k], ev.texts[k]) /\ ev.backs[k] = ev.ins[k]
  \/ ev.op = "anytext" /\ ev.exc = 0 /\ UNCHANGED fs    \* decoding any text is harmless
  \/ ev.op = "rt" /\ ev.cexc = 0 /\ ev.dexc = 0 /\ ev.back = ev.d /\ ev.backn = ev.n /\ UNCHANGED fs
  \/ ev.op = "hurt" /\ UNCHANGED fs
     /\ (IF ev.exc = 1 THEN TRUE ELSE ev.exc = 0 /\ ev.how # "cut" /\ ev.back = ev.d)
  \/ ev.op = "store" /\ ev.exc = 0 /\ fs' = [fs EXCEPT ![ev.x] = <<"ok", ev.d>>]
  \/ ev.op = "spoil" /\ fs' = [fs EXCEPT ![ev.x] = <<"bad", 0>>]
  \/ ev.op = "remove" /\ fs' = [fs EXCEPT ![ev.x] = <<"none", 0>>]
  \/ ev.op = "load" /\ UNCHANGED fs
     /\ LET r == F!LoadRes(fs, ev.x) IN IF r[1] = "error" THEN ev.exc = 1 ELSE ev.exc = 0 /\ ev.parts = r[2]
  \/ ev.op = "badwrite" /\ ev.exc = 1 /\ UNCHANGED fs      \* a place that cannot take the data
  \/ ev.op = "badload" /\ ev.exc = 1 /\ UNCHANGED fs
Next == (~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])) \/ (AtEnd /\ UNCHANGED <<i, fs>>)
=============================================================================
