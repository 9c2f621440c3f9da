------------------------------ MODULE SceneTrace ------------------------------
(***************************************************************************)
(* What a generated scene must be.  The specification generates scenes      *)
(* point by point, choosing labels freely subject to the guarantees: every  *)
(* pose gets n points, point i has the same label at every pose, a label    *)
(* is a valid plane, no plane gets more than its fair share, every point    *)
(* lies on the plane of its label and is stored once, next in the list of   *)
(* that plane and time.  Recorded scenes are checked to be behaviours of    *)
(* it: the driver abstracts a point to [l: label, lies: planes it lies on   *)
(* once moved by the ground truth, at: places <<plane, index>> where plane  *)
(* structures hold exactly this point at this time].                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Scenes == JsonDeserialize("scenes.json")
VARIABLES s, t, i, count, first, verdict
vars == <<s, t, i, count, first, verdict>>
S == Scenes[s]
Zero == [p \in 1..S.p |-> 0]
Init == s \in 1..Len(Scenes) /\ t = 1 /\ i = 0 /\ count = Zero /\ first = <<>> /\ verdict = "open"
Fair(c) == c * S.p < S.n + S.p                          \* at most the ceiling of n / p
Share(c) == (c + 1) * S.p > S.n                         \* at least its floor
Generates(r) == /\ r.l + 1 \in 1..S.p
                /\ t > 1 => r.l = first[i + 1]
                /\ Fair(count[r.l + 1] + 1)
                /\ \E k \in 1..Len(r.lies) : r.lies[k] = r.l
                /\ Len(r.at) = 1 /\ r.at[1][1] = r.l /\ r.at[1][2] = count[r.l + 1]
Point == /\ verdict = "open" /\ t <= S.t /\ i < Len(S.pts[t])
         /\ LET r == S.pts[t][i + 1] IN
            IF i < S.n /\ Generates(r)
            THEN /\ i' = i + 1 /\ count' = [count EXCEPT ![r.l + 1] = @ + 1]
                 /\ first' = (IF t = 1 THEN Append(first, r.l) ELSE first) /\ UNCHANGED verdict
            ELSE verdict' = "bad point" /\ UNCHANGED <<i, count, first>>
         /\ UNCHANGED <<s, t>>
(* a pose is complete: n points, every plane its share, nothing else stored, the pose is that fraction of the last *)
Pose == /\ verdict = "open" /\ t <= S.t /\ i = Len(S.pts[t])
        /\ IF /\ i = S.n /\ \A p \in 1..S.p : Share(count[p]) /\ S.stored[p][t] = count[p]
              /\ S.frac[t] = <<t - 1, IF S.t = 1 THEN 1 ELSE S.t - 1>>
           THEN t' = t + 1 /\ i' = 0 /\ count' = Zero /\ UNCHANGED verdict
           ELSE verdict' = "bad pose" /\ UNCHANGED <<t, i, count>>
        /\ UNCHANGED <<s, first>>
End == /\ verdict = "open" /\ t = S.t + 1
       /\ verdict' = IF /\ Len(S.pts) = S.t /\ Len(S.frac) = S.t /\ Len(S.stored) = S.p /\ S.ids = [p \in 1..S.p |-> p - 1]
                        /\ S.sizes = <<S.p, S.t>>
                     THEN "accepted" ELSE "bad scene"
       /\ UNCHANGED <<s, t, i, count, first>>
Next == (Point \/ Pose \/ End) /\ (IF verdict' # verdict /\ verdict' # "accepted" THEN PrintT("@@" \o ToJson([s |-> s, t |-> t, i |-> i, why |-> verdict'])) ELSE TRUE)
Spec == Init /\ [][Next]_vars
(* consequence of the guarantees, for every accepted scene *)
Balanced == \A p, q \in 1..S.p : count[p] * S.p < S.n + S.p
=============================================================================
