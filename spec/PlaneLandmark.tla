---------------------------- MODULE PlaneLandmark ----------------------------
(***************************************************************************)
(* A plane landmark: the points seen on it at each time, a trajectory       *)
(* shared with others that may change at any moment, and the quantities     *)
(* derived from both.  The model keeps, for every time, which points and    *)
(* which pose the landmark last accounted for (the snapshot); estimation    *)
(* refreshes all snapshots, incremental estimation one of them, the         *)
(* incremental error query none.                                            *)
(***************************************************************************)
EXTENDS Exact, Json
CONSTANTS NT, Points, Poses, MaxPts, MaxLen, OpSet, Sampling
VARIABLES pts, pose, snap, last, mom, est, hist, done
vars == <<pts, pose, snap, last, mom, est, hist, done>>
Ch(A) == IF Sampling THEN {RandomElement(A)} ELSE A
Idx(s) == 1..Len(s)
Time == 1..NT
None == [n |-> 0, g |-> 1]
Current(t) == [n |-> Len(pts[t]), g |-> pose[t]]
Total == Sum(TLCEval([t \in Time |-> Len(pts[t])]))

(* the points a snapshot stands for, moved *)
Moved(t, s) == TLCEval([i \in 1..s.n |-> TAct(Poses[s.g], Points[pts[t][i]], 1)])
Cloud(sn) == TLCEval([t \in Time |-> Moved(t, sn[t])])
Sum3(t) == FoldLeft(LAMBDA a, i : VAdd(a, Points[i]), <<0, 0, 0>>, pts[t])

Init == /\ pts = [t \in Time |-> <<>>] /\ pose = [t \in Time |-> 1] /\ snap = [t \in Time |-> None] /\ last = [t \in Time |-> None]
        /\ mom = FALSE /\ est = FALSE /\ hist = <<>> /\ done = FALSE
Log(rec) == hist' = TLCEval(Append(hist, rec))
Skip == Sampling /\ UNCHANGED vars

Look == /\ UNCHANGED <<pts, pose, snap, last, mom, est>>
        /\ Log([op |-> "look", pts |-> TLCEval([t \in Time |-> TLCEval([i \in Idx(pts[t]) |-> Points[pts[t][i]]])]), total |-> Total])
Add(t, p) ==
  /\ IF t <= NT THEN pts' = [pts EXCEPT ![t] = Append(@, p)] ELSE UNCHANGED pts
  /\ UNCHANGED <<pose, snap, last, mom, est>> /\ Log([op |-> "push", t |-> t, p |-> Points[p]])
Fits(t) == IF t <= NT THEN Len(pts[t]) < MaxPts ELSE TRUE
Push(t, p) == IF Fits(t) THEN Add(t, p) ELSE Sampling /\ Look
Move(t, g) == /\ pose' = [pose EXCEPT ![t] = g] /\ UNCHANGED <<pts, snap, last, mom, est>> /\ Log([op |-> "pose", t |-> t, g |-> Poses[g]])
Swap == /\ UNCHANGED <<pts, pose, snap, last, mom, est>> /\ Log([op |-> "swap"])
Estimate == LET sn == TLCEval([t \in Time |-> Current(t)]) IN
  /\ snap' = sn /\ last' = sn /\ mom' = TRUE /\ est' = TRUE /\ UNCHANGED <<pts, pose>>
  /\ Log([op |-> "estimate", cloud |-> Cloud(sn)])
Inc(t) == LET sn == TLCEval([snap EXCEPT ![t] = Current(t)]) IN
  /\ est /\ snap' = sn /\ last' = sn /\ UNCHANGED <<pts, pose, mom, est>>
  /\ Log([op |-> "inc", t |-> t, cloud |-> Cloud(sn)])
IncError(t) == LET sn == TLCEval([snap EXCEPT ![t] = Current(t)]) IN
  /\ est /\ UNCHANGED <<pts, pose, snap, last, mom, est>>
  /\ Log([op |-> "incerr", t |-> t, cloud |-> Cloud(sn), stays |-> Cloud(last)])
Error == est /\ UNCHANGED <<pts, pose, snap, last, mom, est>> /\ Log([op |-> "error", cloud |-> Cloud(last)])
Moments(b) == mom' = TRUE /\ UNCHANGED <<pts, pose, snap, last, est>> /\ Log([op |-> "moments", b |-> b])
Mean(t) == IF ~(mom /\ Len(pts[t]) > 0) THEN Sampling /\ Look ELSE UNCHANGED <<pts, pose, snap, last, mom, est>> /\ Log([op |-> "mean", t |-> t, s |-> Sum3(t), n |-> Len(pts[t])])
Clear == /\ pts' = [t \in Time |-> <<>>] /\ mom' = FALSE /\ est' = FALSE /\ snap' = [t \in Time |-> None] /\ last' = [t \in Time |-> None]
         /\ UNCHANGED pose /\ Log([op |-> "clear"])
Reset == /\ mom' = FALSE /\ est' = FALSE /\ snap' = [t \in Time |-> None] /\ last' = [t \in Time |-> None]
         /\ UNCHANGED <<pts, pose>> /\ Log([op |-> "reset"])
(* derivatives of the last estimated error by the pose of a time *)
Deriv(t) == /\ est /\ UNCHANGED <<pts, pose, snap, last, mom, est>> /\ Log([op |-> "deriv", t |-> t, cloud |-> Cloud(last)])

Do(o) ==
  CASE o = "push" -> \E t \in Ch(1..(NT + 1)), p \in Ch(Idx(Points)) : Push(t, p)
    [] o = "pose" -> \E t \in Ch(Time), g \in Ch(Idx(Poses)) : Move(t, g)
    [] o = "swap" -> Swap
    [] o = "estimate" -> Estimate
    [] o = "inc" -> \E t \in Ch(Time) : Inc(t)
    [] o = "incerr" -> \E t \in Ch(Time) : IncError(t)
    [] o = "error" -> Error
    [] o = "moments" -> \E b \in Ch({TRUE, FALSE}) : Moments(b)
    [] o = "mean" -> \E t \in Ch(Time) : Mean(t)
    [] o = "look" -> Look
    [] o = "clear" -> Clear
    [] o = "reset" -> Reset
    [] o = "deriv" -> \E t \in Ch(Time) : Deriv(t)
(* when sampling: favour growth at first, and what can be done *)
Useful(o) == CASE o \in {"inc", "incerr", "error", "deriv"} -> est /\ Total > 2
               [] o \in {"clear", "reset"} -> RandomElement(1..6) = 1
               [] o = "estimate" -> Total > 0
               [] o \in {"moments", "swap", "look"} -> RandomElement(1..3) = 1
               [] OTHER -> TRUE
SampledOps == LET U == {o \in OpSet : Useful(o)} IN IF Total < 4 /\ RandomElement(1..2) = 1 THEN {"push"} ELSE {RandomElement(U)}
Next == Len(hist) < MaxLen /\ (\E o \in (IF Sampling THEN SampledOps ELSE OpSet) : Do(o)) /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<pts, pose, snap, last, mom, est, hist>>
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Next \/ Finish]_vars
View == <<pts, pose, snap, last, mom, est>>
EmitEach == hist' # hist => PrintT("@@" \o ToJson(hist'))

(*************************** properties ************************************)
Clean(t) == snap[t] = Current(t)
(* what is estimated never exceeds what was given *)
NoInvention == \A t \in Time : snap[t].n <= Len(pts[t]) /\ last[t].n <= Len(pts[t])
(* right after an estimation everything is accounted for *)
EstimateComplete == [][hist' # hist /\ hist'[Len(hist')].op = "estimate" => \A t \in Time : Clean(t)']_vars
(* if only time t is out of date, its incremental estimation equals an estimation from scratch *)
IncrementalComplete == [][\A t \in Time : hist' # hist /\ hist'[Len(hist')].op = "inc" /\ hist'[Len(hist')].t = t /\ (\A u \in Time : u # t => Clean(u)) => \A u \in Time : Clean(u)']_vars
(* queries change nothing *)
QueriesPure == [][hist' # hist /\ hist'[Len(hist')].op \in {"incerr", "error", "mean", "look", "deriv"} => UNCHANGED <<pts, pose, snap, last, mom, est>>]_vars
(* only clearing removes points *)
NoLoss == [][hist' # hist /\ hist'[Len(hist')].op # "clear" => \A t \in Time : IsPrefix(pts[t], pts[t]')]_vars
=============================================================================
