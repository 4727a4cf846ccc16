--------------------------------- MODULE Sky ---------------------------------
(* Sky coordinate objects: a kind, three values, an epoch.

   Objects live in numbered slots. Numbers are texts that stand for exact values, so that
   what comes back is what was given, digit by digit. An operation's answer is Answer(s, o). *)
EXTENDS Util
Slots == 1..4
None == [live |-> 0, c |-> 0, t |-> "", v |-> <<"0", "0", "0">>, ep |-> "0"]
S0 == [k \in Slots |-> None]
New(c, t, v) == [live |-> 1, c |-> c, t |-> t, v |-> v, ep |-> "2000"]
Three(v) == IF Len(v) = 2 THEN v \o <<"0">> ELSE v

Legal(s, o) ==
    CASE o.op \in {"make", "cmake", "astro"} -> o.i \in Slots
      [] o.op = "copy" -> o.i \in Slots /\ o.j \in Slots /\ s[o.j].live = 1 /\ s[o.j].c = 0
      [] o.op \in {"value", "epoch", "type", "set", "drop"} -> o.i \in Slots /\ s[o.i].live = 1
      [] OTHER -> TRUE
Failing(o) == o.op = "bad" \/ (o.op = "astro" /\ o.frame # "icrs")
Act(s, o) ==
    CASE Failing(o) -> s
      [] o.op \in {"make", "cmake"} -> [s EXCEPT ![o.i] = New(IF o.op = "cmake" THEN 1 ELSE 0, o.t, Three(o.v))]
      [] o.op = "astro" -> [s EXCEPT ![o.i] = New(0, "icrs", Three(o.v))]
      [] o.op = "copy" -> [s EXCEPT ![o.i] = s[o.j]]
      [] o.op = "set" -> [s EXCEPT ![o.i].ep = o.v[1]]
      [] o.op = "drop" -> [s EXCEPT ![o.i] = None]
      [] OTHER -> s
Answer(s, o) ==
    CASE o.op = "value" -> IF o.n \in 0..2 THEN s[o.i].v[o.n + 1] ELSE "0"
      [] o.op = "epoch" -> s[o.i].ep
      [] o.op = "type" -> s[o.i].t
      [] o.op = "null" -> IF o.f = "type" THEN "null" ELSE IF o.f \in {"epoch", "value"} THEN "0" ELSE ""
      [] OTHER -> ""
Raises(o) == IF o.op = "bad" /\ o.f = "nonascii" THEN "UnicodeEncodeError"
             ELSE IF Failing(o) THEN "RuntimeError" ELSE ""
StepWhy(s, e) ==
    LET o == e.o
    IN IF e.e # "Step" THEN "event"
       ELSE IF ~Legal(s, o) THEN "driver: illegal"
       ELSE IF e.exc # Raises(o) THEN "outcome"
       ELSE IF e.exc = "" /\ e.ret # Answer(s, o) THEN "answer"
       ELSE "ok"
StepTo(s, e) == Act(s, e.o)
=============================================================================
