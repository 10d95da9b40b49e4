------------------------------ MODULE FileSize ------------------------------
(* Reading a size text character by character: which texts are sizes, and the  *)
(* digits, decimals and unit collected on the way.                            *)
EXTENDS SeqOps, TLC
CONSTANTS CHARS, MAXLEN
VARIABLES t, st, digits, decs, zeros
vars == <<t, st, digits, decs, zeros>>
Init == t = <<>> /\ st = "start" /\ digits = <<>> /\ decs = 0 /\ zeros = 0
Num == {"int", "frac", "dotonly", "start"}
Put(c) == /\ t' = Append(t, c)
          /\ digits' = IF Digit(c) /\ st \in Num THEN Append(digits, c - 48) ELSE digits
          /\ decs' = IF Digit(c) /\ st \in {"frac", "dotonly"} THEN decs + 1 ELSE decs
          /\ zeros' = IF UnitZeros(c) > 0 /\ st \in {"int", "frac"} THEN UnitZeros(c) ELSE zeros
          /\ st' = CASE Digit(c) /\ st \in {"start", "int"} -> "int"
                     [] Digit(c) /\ st \in {"frac", "dotonly"} -> "frac"
                     [] c = 46 /\ st = "start" -> "dotonly"
                     [] c = 46 /\ st = "int" -> "frac"
                     [] UnitZeros(c) > 0 /\ st \in {"int", "frac"} -> "unit"
                     [] c \in {66, 98} /\ st \in {"int", "frac", "unit"} -> "b"
                     [] OTHER -> "no"
Next == Len(t) < MAXLEN /\ \E c \in CHARS : Put(c)
Accepts == st \in {"int", "frac", "unit", "b"}
Recognised == Accepts = IsSize(t)
Value == Accepts => /\ zeros = Zeros(t) /\ decs = Frac(NoUnit(NoB(t))) /\ digits = DigitsOf(NoUnit(NoB(t)))
                    /\ (zeros >= decs => Sizes(t) = {Strip(digits \o Fill(zeros - decs))})
Emit == PrintT("GEN:" \o ToString(t))
============================================================================
