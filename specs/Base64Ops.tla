------------------------------ MODULE Base64Ops ------------------------------
(* RFC 4648 base64 over bytes 0..255 and character codes.                      *)
EXTENDS Integers, Sequences
Code(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 97 + v - 26 ELSE IF v < 62 THEN 48 + v - 52 ELSE IF v = 62 THEN 43 ELSE 47
Pad == 61
Group(b) ==  \* one to three bytes
  CASE Len(b) = 3 -> LET n == b[1] * 65536 + b[2] * 256 + b[3] IN <<Code(n \div 262144), Code((n \div 4096) % 64), Code((n \div 64) % 64), Code(n % 64)>>
    [] Len(b) = 2 -> LET n == b[1] * 65536 + b[2] * 256 IN <<Code(n \div 262144), Code((n \div 4096) % 64), Code((n \div 64) % 64), Pad>>
    [] OTHER -> LET n == b[1] * 65536 IN <<Code(n \div 262144), Code((n \div 4096) % 64), Pad, Pad>>
EncLen(n) == 4 * ((n + 2) \div 3)
IsEnc(b, t) ==
  /\ Len(t) = EncLen(Len(b))
  /\ \A k \in 0..((Len(b) + 2) \div 3 - 1) : SubSeq(t, 4 * k + 1, 4 * k + 4) = Group(SubSeq(b, 3 * k + 1, IF 3 * k + 3 < Len(b) THEN 3 * k + 3 ELSE Len(b)))
=============================================================================
