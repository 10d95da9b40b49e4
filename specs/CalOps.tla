------------------------------- MODULE CalOps -------------------------------
(* The civil calendar and how an instant is written down as local date and   *)
(* time of day. Days and seconds are counted from 1970-01-01.                *)
EXTENDS Integers, Sequences, TLC
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Tomorrow(c) == IF c.d < MonthLen(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
               ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1] ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
\* closed form: count in 400-year eras of years starting in March
DateOf(days) ==
  LET z == days + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9 IN
  [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> doy - ((153 * mp + 2) \div 5) + 1]
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Four(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
DateText(days) == LET c == DateOf(days) IN Four(c.y) \o "-" \o Two(c.m) \o "-" \o Two(c.d)
TimeText(s, sep) == Two(s \div 3600) \o sep \o Two((s \div 60) % 60) \o sep \o Two(s % 60)
\* local time of instant t in a zone off seconds east
StampText(t, off) == LET l == t + off IN DateText(l \div 86400) \o "__" \o TimeText(l % 86400, "-")
HeadText(t, off) == LET l == t + off IN DateText(l \div 86400) \o " " \o TimeText(l % 86400, ":")
=============================================================================
