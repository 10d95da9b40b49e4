----------------------------- MODULE ColourOps -----------------------------
(* Colour channels in millionths.                                            *)
EXTENDS Integers, Sequences
ONE == 1000000
Trim(v) == IF v < 0 THEN 0 ELSE IF v > ONE THEN ONE ELSE v
Hex(v) == (Trim(v) * 255 + ONE \div 2) \div ONE
OfHex(h) == (h * ONE) \div 255
Hot(p) ==  \* blue, cyan, green, yellow, red, at position p of 1024
  LET q == IF p < 0 THEN 0 ELSE IF p > 1024 THEN 1024 ELSE p
      up(z) == (4 * z * ONE) \div 1024 IN
  IF q < 256 THEN <<0, up(q), ONE, ONE>>
  ELSE IF q < 512 THEN <<0, ONE, ONE - up(q - 256), ONE>>
  ELSE IF q < 768 THEN <<up(q - 512), ONE, 0, ONE>>
  ELSE <<ONE, ONE - up(q - 768), 0, ONE>>
============================================================================
