------------------------------- MODULE SceneOps -------------------------------
(***************************************************************************)
(* Synthetic scenes (mrob CreatePoints) and the registrations filled from   *)
(* them.  A scene never changes; a registration holds the planes of the     *)
(* scene it was filled from last, with a trajectory that is the identity    *)
(* or, once its last pose was set to that of the ground truth, the ground   *)
(* truth at every time.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, NPlanes, NPoses, Noises, Biases, \* indices of the noise levels; 1 is none
          MaxScenes, MaxRegs, MaxLen, Sampling
VARIABLES scene, reg, hist, done
vars == <<scene, reg, hist, done>>
Ch(A) == IF Sampling THEN {RandomElement(A)} ELSE A
None == [s |-> 0, at |-> "none"]
Init == scene = <<>> /\ reg = [r \in 1..MaxRegs |-> None] /\ hist = <<>> /\ done = FALSE
Log(r) == hist' = Append(hist, r @@ [reg |-> reg'])
Scenes == 1..Len(scene)
Filled == {r \in 1..MaxRegs : reg[r].s > 0}
Create == /\ Len(scene) < MaxScenes
          /\ \E n \in Ch(Points), p \in Ch(NPlanes), t \in Ch(NPoses), x \in Ch(Noises), b \in Ch(Biases) :
                LET c == [n |-> n, p |-> p, t |-> t, noise |-> x, bias |-> b] IN
                scene' = Append(scene, c) /\ UNCHANGED reg /\ Log([op |-> "create", c |-> c])
(* the planes of a scene are handed over, not copied: a registration that held them before no longer does *)
Register(s, r) == reg' = [q \in 1..MaxRegs |-> IF q = r THEN [s |-> s, at |-> "identity"] ELSE IF reg[q].s = s THEN None ELSE reg[q]] /\ UNCHANGED scene /\ Log([op |-> "register", s |-> s, r |-> r])
Truth(r) == scene[reg[r].s].t > 1 /\ reg' = [reg EXCEPT ![r].at = "truth"] /\ UNCHANGED scene /\ Log([op |-> "truth", r |-> r])
Restart(r) == reg' = [reg EXCEPT ![r].at = "identity"] /\ UNCHANGED scene /\ Log([op |-> "reset", r |-> r])
Look == UNCHANGED <<scene, reg>> /\ Log([op |-> "look"])
Do(op) == CASE Len(scene) = 0 -> Create
            [] op = "create" -> IF Len(scene) < MaxScenes THEN Create ELSE Look
            [] op = "register" -> \E s \in Ch(Scenes), r \in Ch(1..MaxRegs) : Register(s, r)
            [] op = "truth" /\ Filled # {} -> \E r \in Ch(Filled) : IF scene[reg[r].s].t > 1 THEN Truth(r) ELSE Look
            [] op = "reset" /\ Filled # {} -> \E r \in Ch(Filled) : Restart(r)
            [] OTHER -> Look
Ops == {"create", "register", "truth", "reset"}
Next == Len(hist) < MaxLen /\ (\E op \in Ch(Ops) : Do(op)) /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<scene, reg, hist>>
SimSpec == Init /\ [][Next \/ Finish]_vars
Spec == Init /\ [][Next]_vars
EmitFull == Len(hist') = MaxLen => PrintT("@@" \o ToJson(hist'))
(*************************** properties ************************************)
Refers == \A r \in 1..MaxRegs : reg[r].s \in 0..Len(scene)
OneHolder == \A q, r \in Filled : q # r => reg[q].s # reg[r].s
ScenesStay == [][\A s \in Scenes : scene'[s] = scene[s]]_vars
TruthOnlyWhenSet == [][\A r \in 1..MaxRegs : reg'[r].at = "truth" => reg[r].at = "truth" \/ hist'[Len(hist')].op = "truth"]_vars
=============================================================================
