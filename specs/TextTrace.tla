------------------------------ MODULE TextTrace ------------------------------
(* Recorded texts of values (kind "text"), histories of hashed containers      *)
(* ("hashed"), small helpers ("plain") and directories ("dirs").                *)
EXTENDS TraceBase
VARIABLE st
\* ------------------------------------------------------------------- texts
\* a number given in eighths
Frac == <<"", ".125", ".25", ".375", ".5", ".625", ".75", ".875">>
Num(n) == (IF n < 0 THEN "-" ELSE "") \o ToString(Abs(n) \div 8) \o Frac[(Abs(n) % 8) + 1]
RECURSIVE Joined(_, _, _)
Joined(s, sep, k) == IF k > Len(s) THEN "" ELSE (IF k = 1 THEN "" ELSE sep) \o s[k] \o Joined(s, sep, k + 1)
Join(s, sep) == Joined(s, sep, 1)
Names == <<"x: ", "y: ", "z: ", "w: ">>
Plain(c) == Join([k \in DOMAIN c |-> Num(c[k])], ", ")
Named(c) == "<" \o Join([k \in DOMAIN c |-> Names[k] \o Num(c[k])], " ") \o ">"
Open == [x \in {"[", "(", "{"} |-> x]
Shut == [x \in {"[", "(", "{"} |-> IF x = "[" THEN "]" ELSE IF x = "(" THEN ")" ELSE "}"]
RECURSIVE Text(_, _, _)
Text(t, d, sep) ==
  CASE t.k = "i" -> ToString(t.n)
    [] t.k = "b" -> IF t.n = 1 THEN "true" ELSE "false"
    [] t.k = "d" -> Num(t.n)
    [] t.k = "s" -> t.s
    [] t.k = "v2" -> IF d THEN "Vector2d: " \o Named(t.c) ELSE Plain(t.c)
    [] t.k = "v3" -> IF d THEN "Vector3d: " \o Named(t.c) ELSE Plain(t.c)
    [] t.k = "v4" -> IF d THEN "Vector4d: " \o Named(t.c) ELSE Plain(t.c)
    [] t.k = "q" -> IF d THEN "Quaterniond " \o Named(t.c) ELSE Plain(t.c)
    [] t.k = "P" -> (IF d THEN "<" ELSE "") \o Text(t.c[1], d, sep) \o ": " \o Text(t.c[2], d, sep) \o (IF d THEN ">" ELSE "")
    [] OTHER -> IF t.c = <<>> THEN "" ELSE LET u == Join([k \in DOMAIN t.c |-> Text(t.c[k], d, sep)], sep) IN IF d THEN Open[t.k] \o u \o Shut[t.k] ELSE u
NL == "~0a"
Rows(m) == Join([r \in DOMAIN m |-> Join([k \in DOMAIN m[r] |-> Num(m[r][k])], ",")], NL)
Dyn(ev) == LET v == Join([k \in DOMAIN ev.v |-> Num(ev.v[k])], ",") IN
           /\ ev.vo = (IF ev.d THEN "VectorXd:<" \o v \o ">" ELSE v)
           /\ ev.mo = (IF ev.d THEN "MatrixXd:" \o NL \o "[" \o Rows(ev.m) \o "]" ELSE Rows(ev.m))
Iso(ev) == ev.out = (IF ev.d THEN "Isometry3d " \o Named(ev.t) \o ", " \o Named(ev.q) ELSE Plain(ev.t) \o " : " \o Plain(ev.q))
Stream(ev) == /\ ev.a = Join([k \in DOMAIN ev.v.c |-> ToString(ev.v.c[k].n) \o " "], "")
              /\ ev.b = Join([k \in DOMAIN ev.w.c |-> ev.w.c[k].s \o NL], "")
\* ------------------------------------------------------- hashed containers
Hash(ev) ==
  LET has == ev.key \in DOMAIN st put == [x \in DOMAIN st \union {ev.key} |-> IF x = ev.key THEN ev.v ELSE st[x]] IN
  /\ ev.same
  /\ CASE ev.code = 0 -> ev.r = (IF has THEN 0 ELSE 1) /\ st' = (IF has THEN st ELSE put)
       [] ev.code = 1 -> st' = put
       [] ev.code = 2 -> ev.r = (IF has THEN 1 ELSE 0) /\ st' = [x \in DOMAIN st \ {ev.key} |-> st[x]]
       [] OTHER -> ev.r = (IF has THEN st[ev.key] ELSE 0 - 1) /\ st' = st
  /\ ev.size = Cardinality(DOMAIN st')
\* ------------------------------------------------------------ small helpers
First(v, x) == IF x \in Range(v) THEN (CHOOSE k \in DOMAIN v : v[k] = x /\ \A j \in 1..(k - 1) : v[j] # x) - 1 ELSE 0 - 1
Enum(ev) == /\ Len(ev.e) = 2 * Len(ev.v) /\ Len(ev.es) = 2 * Len(ev.v)
            /\ \A k \in DOMAIN ev.v : ev.e[2 * k - 1] = k - 1 /\ ev.e[2 * k] = ev.v[k] /\ ev.es[2 * k - 1] = k - 1 /\ ev.es[2 * k] = 1
Raise(ev) == /\ ev.kind = (IF ev.x % 2 = 1 THEN "invalid_argument" ELSE "runtime_error")
             /\ ev.what = ev.msg \o ": " \o ev.file \o ": " \o ToString(ev.line)
\* -------------------------------------------------------------- directories
Up(p, n) == SubSeq(p, 1, n)
Shows(ev, s) == Range(ev.dirs) = s.dirs /\ Range(ev.files) = s.files
MkDir(ev) == LET blocked == \E n \in 1..Len(ev.p) : Up(ev.p, n) \in st.files
                 new == IF blocked THEN st ELSE [st EXCEPT !.dirs = @ \union {Up(ev.p, n) : n \in 1..Len(ev.p)}] IN
             /\ ev.st = (IF blocked THEN 1 ELSE 0)
             /\ st' = new /\ Shows(ev, new)
MkFile(ev) == LET p == ev.p par == Up(p, Len(p) - 1)
                  new == IF (par = <<>> \/ par \in st.dirs) /\ p \notin (st.dirs \union st.files) THEN [st EXCEPT !.files = @ \union {p}] ELSE st IN
              st' = new /\ Shows(ev, new)
\* ------------------------------------------------------------------- steps
Step(ev) == CASE ev.op = "print" -> ev.out = Text(ev.t, ev.d, ev.sep) /\ UNCHANGED st
              [] ev.op = "dyn" -> (Dyn(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "iso" -> Iso(ev) /\ UNCHANGED st
              [] ev.op = "stream" -> (Stream(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "hash" -> Hash(ev)
              [] ev.op = "find" -> ev.r = First(ev.v, ev.x) /\ ev.rs = ev.r /\ UNCHANGED st
              [] ev.op = "enum" -> (Enum(ev) = TRUE) /\ UNCHANGED st
              [] ev.op = "raise" -> Raise(ev) /\ UNCHANGED st
              [] ev.op = "mkdir" -> MkDir(ev)
              [] ev.op = "file" -> MkFile(ev)
              [] OTHER -> FALSE
Start(k) == CASE k = "hashed" -> [x \in {} |-> 0]
              [] k = "dirs" -> [dirs |-> {}, files |-> {}]
              [] OTHER -> 0
Init == i \in Starts /\ st = Start(Trace[i].kind)
Next == \/ ~AtEnd /\ i' = i + 1 /\ Step(Trace[i + 1])
        \/ AtEnd /\ UNCHANGED <<i, st>>
============================================================================
