----------------------------- MODULE TimeProfile -----------------------------
(***************************************************************************)
(* The profiler (mrob TimeProfiling).  Time is counted in ticks, one per    *)
(* call: an interval is the pair of ticks that delimit it, so the           *)
(* specification says between which two calls every recorded interval lies. *)
(* The driver either bounds the interval by readings of the real clock      *)
(* around the calls, or makes the profiler read a clock of its own, where   *)
(* every interval has one exact value.                                      *)
(* There are several profilers: a copy is independent of its original.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Labels, Waits, Bursts, MaxObj, MaxLen, Sampling
VARIABLES from, rec, tick, hist, done
vars == <<from, rec, tick, hist, done>>
Ch(A) == IF Sampling THEN {RandomElement(A)} ELSE A
Objs == 1..Len(from)
(* from[o]: tick the next interval is measured from (0: never started); rec[o]: sequence of <<label, from, to>> *)
Init == from = <<0>> /\ rec = <<<<>>>> /\ tick = 0 /\ hist = <<>> /\ done = FALSE
E == tick + 1
One == tick' = tick + 1
Log(r) == /\ (IF r.op = "burst" THEN TRUE ELSE One) /\ hist' = Append(hist, r @@ [rec |-> rec'])
Start(o) == from' = [from EXCEPT ![o] = E] /\ UNCHANGED rec /\ Log([op |-> "start", o |-> o])
Stop(o, k, named) == /\ from[o] > 0
                     /\ rec' = [rec EXCEPT ![o] = Append(@, <<IF named THEN k ELSE "", from[o], E>>)]
                     /\ UNCHANGED from /\ Log([op |-> IF named THEN "stop" ELSE "stop_unnamed", o |-> o, k |-> k])
(* n intervals in a row, each started and stopped with the same label *)
Burst(o, k, n, w) == /\ rec' = [rec EXCEPT ![o] = @ \o [i \in 1..n |-> <<k, tick + 2 * i - 1, tick + 2 * i>>]]
                     /\ from' = [from EXCEPT ![o] = tick + 2 * n - 1] /\ tick' = tick + 2 * n
                     /\ Log([op |-> "burst", o |-> o, k |-> k, n |-> n, w |-> w])
Reset(o) == rec' = [rec EXCEPT ![o] = <<>>] /\ from' = [from EXCEPT ![o] = E] /\ Log([op |-> "reset", o |-> o])
Copy(o) == Len(from) < MaxObj /\ from' = Append(from, from[o]) /\ rec' = Append(rec, rec[o]) /\ Log([op |-> "copy", o |-> o])
Total(o) == UNCHANGED <<from, rec>> /\ Log([op |-> "total", o |-> o])
Report(o) == UNCHANGED <<from, rec>> /\ Log([op |-> "report", o |-> o])
Wait(k) == UNCHANGED <<from, rec>> /\ Log([op |-> "wait", k |-> k, o |-> 1])
Do(op) == \E o \in Ch(Objs) :
  CASE op = "start" -> Start(o)
    [] op = "stop" /\ from[o] > 0 -> \E k \in Ch(Labels), named \in Ch({TRUE, TRUE, FALSE}) : Stop(o, k, named)
    [] op = "burst" -> \E k \in Ch(Labels), n \in Ch(Bursts), w \in Ch(Waits) : Burst(o, k, n, w)
    [] op = "reset" -> Reset(o)
    [] op = "copy" /\ Len(from) < MaxObj -> Copy(o)
    [] op = "total" -> Total(o)
    [] op = "report" -> Report(o)
    [] OTHER -> \E k \in Ch(Waits) : Wait(k)
Freq == <<"start", "start", "stop", "stop", "stop", "stop", "wait", "wait", "wait", "total", "report", "copy", "reset">> \o (IF Bursts = {} THEN <<>> ELSE <<"burst">>)
Next == Len(hist) < MaxLen /\ (\E op \in (IF Sampling THEN {Freq[RandomElement(1..Len(Freq))]} ELSE {"start", "stop", "reset", "copy", "wait"}) : Do(op)) /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<from, rec, tick, hist>>
SimSpec == Init /\ [][Next \/ Finish]_vars
Spec == Init /\ [][Next]_vars
EmitFull == Len(hist') = MaxLen => PrintT("@@" \o ToJson(hist'))
(*************************** properties ************************************)
Ordered == \A o \in Objs : \A i \in 1..Len(rec[o]) : rec[o][i][2] < rec[o][i][3] /\ (i > 1 => rec[o][i - 1][3] < rec[o][i][3] /\ rec[o][i - 1][2] <= rec[o][i][2])
OnlyGrows == [][\A o \in Objs : rec'[o] # rec[o] => (rec'[o] = <<>> /\ hist'[Len(hist')].op = "reset") \/ (Len(rec'[o]) > Len(rec[o]) /\ (hist'[Len(hist')].op # "burst" => Len(rec'[o]) = Len(rec[o]) + 1) /\ SubSeq(rec'[o], 1, Len(rec[o])) = rec[o])]_vars
OneAtATime == [][Cardinality({o \in Objs : rec'[o] # rec[o]}) <= 1]_vars
=============================================================================
