----------------------------- MODULE DampedTrace -----------------------------
(***************************************************************************)
(* Validates iterations recorded from real damped solves against the       *)
(* control of DampedControl: the classes are those of the recorded error   *)
(* changes, the exponent is recovered from the length of the step          *)
(* (Unknown when the damping is too small to be seen).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
Traces == JsonDeserialize("traces.json")
Unknown == 999
VARIABLES t, l, e, running, verdict
vars == <<t, l, e, running, verdict>>
Tr == Traces[t]
Init == t \in 1..Len(Traces) /\ l = 0 /\ e = 0 /\ running = TRUE /\ verdict = "open"
Exponent(c) == CASE c = "worse" -> e + 1 [] c = "poor" -> e + 1 [] c = "good" -> e - 2 [] OTHER -> e
Explains(r) == /\ running
               /\ r.e = Unknown \/ r.e = e                         \* the damping it used
               /\ r.moved <=> r.class # "worse"                    \* accepted or undone
               /\ l < Tr.limit
Consume == /\ verdict = "open" /\ l < Len(Tr.steps)
           /\ LET r == Tr.steps[l + 1] IN
              IF Explains(r)
              THEN /\ l' = l + 1 /\ e' = Exponent(r.class) /\ running' = (r.class # "conv" /\ l + 1 < Tr.limit) /\ UNCHANGED verdict
              ELSE verdict' = "rejected" /\ UNCHANGED <<l, e, running>>
           /\ UNCHANGED t
End == /\ verdict = "open" /\ l = Len(Tr.steps)
       /\ verdict' = IF running THEN "rejected" ELSE "accepted"     \* it may not give up early
       /\ UNCHANGED <<t, l, e, running>>
Next == (Consume \/ End) /\ (IF verdict' = "rejected" THEN PrintT("@@" \o ToJson([t |-> t, l |-> l, e |-> e])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
=============================================================================
