------------------------------ MODULE PadTrace ------------------------------
(* Recorded uses of a joystick: messages as they arrive, and what the        *)
(* controller object says.  Axes in thousandths, times in milliseconds.      *)
EXTENDS TraceBase
VARIABLES cur, wait, down
vars == <<i, cur, wait, down>>
Pads == <<"A", "B", "X", "Y", "LB", "RB", "back", "start", "power", "stick_button_left", "stick_button_right">>
Dpad == <<"DL", "DR", "DU", "DD">>
Sticks == <<"LH", "LV", "LT", "RH", "RV", "RT", "DH", "DV">>
Buttons(xpad) == IF xpad THEN Pads \o Dpad ELSE Pads
Fits(m) == Len(m.buttons) = Len(Buttons(m.xpad)) /\ Len(m.axes) = Len(Sticks)
Index(s, n) == CHOOSE k \in DOMAIN s : s[k] = n
Has(m, n) == n \in Range(Buttons(m.xpad)) \cup Range(Sticks)
\* buttons in whole numbers, axes in thousandths: both times a thousand
Value(m, n) == IF n \in Range(Sticks) THEN m.axes[Index(Sticks, n)] ELSE 1000 * m.buttons[Index(Buttons(m.xpad), n)]
Fields(m) == [n \in Range(Buttons(m.xpad)) \cup Range(Sticks) |-> Value(m, n)]
Quiet(v) == IF Abs(v) < 50 THEN 0 ELSE v
Axis(m, k) == Quiet(IF k = 0 THEN 0 - m.axes[1] ELSE m.axes[k + 1])
Known == {0, 1, 2, 4, 5}
Got == cur.got
Same == UNCHANGED <<cur, wait, down>>
Min(a, b) == IF a < b THEN a ELSE b
\* wait.since: since when the latest messages show the button pressed (INF: they do not)
Since(m, w, now) == IF ~w.on \/ ~Fits(m) THEN w ELSE [w EXCEPT !.since = IF Value(m, w.name) = 0 THEN INF ELSE Min(@, now)]
InTime(now) == wait.on => now < Min(wait.since, down) + 50
Step(e) ==
  CASE e.op = "joy" -> LET m == [got |-> TRUE, xpad |-> cur.xpad, buttons |-> e.buttons, axes |-> e.axes] IN
                       /\ InTime(e.now) /\ cur' = m /\ wait' = Since(m, wait, e.now) /\ down' = down
    [] e.op = "shut" -> InTime(e.now) /\ down' = Min(down, e.now) /\ UNCHANGED <<cur, wait>>
    [] e.op = "state" -> Got /\ (IF Fits(cur) THEN e.status = "ok" /\ e.fields = Fields(cur) ELSE e.status # "ok") /\ Same
    [] e.op = "button" -> Got /\ (IF Fits(cur) /\ Has(cur, e.name) THEN e.status = "ok" /\ e.r = Value(cur, e.name) ELSE e.status # "ok") /\ Same
    [] e.op = "axis" -> Got /\ (IF e.k \in Known THEN e.status = "ok" /\ e.r = Axis(cur, e.k) ELSE e.status # "ok") /\ Same
    [] e.op = "delta" -> Got /\ e.status = "ok" /\ e.r = <<Axis(cur, 0), Axis(cur, 1), Axis(cur, 4)>> /\ Same
    [] e.op = "click" -> e.r = (e.type = "Key" /\ e.code = "BTN_NORTH" /\ e.state = 0) /\ Same
    [] e.op = "wait" -> /\ wait' = LET w == [on |-> TRUE, name |-> e.name, since |-> INF] IN IF Got THEN Since(cur, w, e.now) ELSE w
                        /\ UNCHANGED <<cur, down>>
    [] e.op = "waited" -> /\ e.status = "ok" /\ wait.on /\ (wait.since < INF \/ down < INF) /\ InTime(e.now)
                          /\ wait' = [wait EXCEPT !.on = FALSE] /\ UNCHANGED <<cur, down>>
    [] OTHER -> FALSE
Init == i \in Starts /\ cur = [got |-> FALSE, xpad |-> Trace[i].xpad, buttons |-> <<>>, axes |-> <<>>] /\ wait = [on |-> FALSE, name |-> "", since |-> INF] /\ down = INF
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED vars
=============================================================================
