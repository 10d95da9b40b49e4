------------------------------- MODULE Base64 -------------------------------
(* The streaming encoder (bytes enter one at a time, six bits leave at a time) *)
(* against the block definition, and the decoder as its inverse.               *)
EXTENDS Base64Ops, TLC, FiniteSets
CONSTANTS MaxLen
Bytes == {0, 1, 63, 64, 127, 128, 250, 255}
VARIABLES inp, acc, nb, out, pc
vars == <<inp, acc, nb, out, pc>>
Init == inp = <<>> /\ acc = 0 /\ nb = 0 /\ out = <<>> /\ pc = "in"
Pow2(n) == CASE n = 0 -> 1 [] n = 2 -> 4 [] n = 4 -> 16 [] n = 6 -> 64 [] n = 8 -> 256 [] n = 10 -> 1024 [] n = 12 -> 4096
RECURSIVE Drain(_, _, _)
Drain(a, n, o) == IF n < 6 THEN <<a, n, o>> ELSE Drain(a % Pow2(n - 6), n - 6, Append(o, Code(a \div Pow2(n - 6))))
Feed(b) == pc = "in" /\ Len(inp) < MaxLen /\ inp' = Append(inp, b) /\ UNCHANGED pc
           /\ LET r == Drain(acc * 256 + b, nb + 8, out) IN acc' = r[1] /\ nb' = r[2] /\ out' = r[3]
Finish == pc = "in" /\ pc' = "done" /\ UNCHANGED <<inp, acc, nb>>
          /\ out' = (CASE nb = 0 -> out [] nb = 2 -> out \o <<Code(acc * 16), Pad, Pad>> [] nb = 4 -> out \o <<Code(acc * 4), Pad>>)
Next == (\E b \in Bytes : Feed(b)) \/ Finish \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Agrees == pc = "done" => IsEnc(inp, out)
Val(c) == CHOOSE v \in 0..63 : Code(v) = c
(* bits of the text, read back *)
RECURSIVE Undo(_, _, _, _)
Undo(t, a, n, o) == IF t = <<>> \/ t[1] = Pad THEN o
                    ELSE LET a2 == a * 64 + Val(t[1])  n2 == n + 6 IN
                         IF n2 >= 8 THEN Undo(Tail(t), a2 % Pow2(n2 - 8), n2 - 8, Append(o, a2 \div Pow2(n2 - 8))) ELSE Undo(Tail(t), a2, n2, o)
Lossless == pc = "done" => Undo(out, 0, 0, <<>>) = inp
=============================================================================
