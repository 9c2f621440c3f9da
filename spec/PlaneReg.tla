------------------------------- MODULE PlaneReg -------------------------------
(***************************************************************************)
(* Plane registration (mrob PlaneRegistration): planes seen over a          *)
(* trajectory whose first pose is fixed.  The model knows the trajectory    *)
(* exactly after a reset, after the last pose was set (interpolation of an  *)
(* exact element), and after an initialisation from exact data; after an    *)
(* optimisation it knows the relations the poses must satisfy.              *)
(***************************************************************************)
EXTENDS Exact, Json
CONSTANTS NPoses,      \* set of possible numbers of poses
          Planes,      \* catalogue: sequences of four integer points each
          Normals,     \* their normals
          Motions,     \* catalogue of poses; 1 is the identity
          Shakes,      \* small integer vectors, sixteenths: noise of a view
          Modes, OpSet, MaxLen, Sampling
VARIABLES n, gt, seen, traj, before, hist, done
vars == <<n, gt, seen, traj, before, hist, done>>
Ch(A) == IF Sampling THEN {RandomElement(A)} ELSE A
Idx(s) == 1..Len(s)
ASSUME \A p \in Idx(Planes) : Len(Planes[p]) = 4
ASSUME \A p \in Idx(Planes) : \A i \in 2..4 : Dot(Normals[p], VSub(Planes[p][i], Planes[p][1])) = 0

(* seen[p]: <<>> when the plane is unknown, else one sequence per time of views <<number of points, shake>> *)
Known == {p \in Idx(Planes) : seen[p] # <<>>}
Count(p, t) == Sum(TLCEval([i \in Idx(seen[p][t]) |-> seen[p][t][i][1]]))
Plain(p, t) == \A i \in Idx(seen[p][t]) : seen[p][t][i][1] = 4 /\ Shakes[seen[p][t][i][2]] = <<0, 0, 0>>
(* world points as seen at time t: moved by the inverse of the ground truth, shaken by alternating sixteenths *)
Local(p, t, k, s, i) == LET y == TAct(TInv(Motions[gt[t]]), Planes[p][i], 1) e == IF i % 2 = 0 THEN 1 ELSE -1
                        IN [p |-> TLCEval([a \in 1..3 |-> 16 * y.p[a] + e * Shakes[s][a] * y.w]), w |-> 16 * y.w]
View(p, t, k, s) == TLCEval([i \in 1..k |-> Local(p, t, k, s, i)])
WSum(p) == FoldLeft(VAdd, <<0, 0, 0>>, Planes[p])           \* four times the mean in the world

(* initialisation: planes seen at the first time and at time t, and whether their means determine a motion *)
Common(t) == {p \in Known : Count(p, 1) > 0 /\ Count(p, t) > 0}
AllPlain(t) == \A p \in Common(t) : Plain(p, 1) /\ Plain(p, t)
Rank(P) == IF Cardinality(P) <= 1 THEN 0
           ELSE IF \A a, b, c \in P : Cross(VSub(b, a), VSub(c, a)) = <<0, 0, 0>> THEN 1 ELSE 2
MeansRank(t) == Rank({WSum(p) : p \in Common(t)})
Outcome(t) == IF Cardinality(Common(t)) < 3 THEN "fail"
              ELSE IF ~AllPlain(t) THEN "data" ELSE IF MeansRank(t) < 2 THEN "fail" ELSE "exact"
RECURSIVE FirstFail(_)
FirstFail(t) == IF t > n THEN n + 1 ELSE IF Outcome(t) = "fail" THEN t ELSE FirstFail(t + 1)

(* an optimisation needs planes spanning space, seen at all times with enough points *)
Det(a, b, c) == Dot(a, Cross(b, c))
Full(p) == \A t \in 1..n : Count(p, t) >= 3
Solvable == \E a, b, c \in Known : Full(a) /\ Full(b) /\ Full(c) /\ Det(Normals[a], Normals[b], Normals[c]) # 0

IdTraj(k) == TLCEval([t \in 1..k |-> [kind |-> "pose", g |-> Motions[1]]])
Init == n = 0 /\ gt = <<>> /\ seen = [p \in Idx(Planes) |-> <<>>] /\ traj = <<>> /\ before = <<>> /\ hist = <<>> /\ done = FALSE
Log(rec) == hist' = TLCEval(Append(hist, rec @@ [traj |-> traj'])) /\ before' = traj
Renew == \E k \in Ch(NPoses) :
    /\ \E f \in Ch([1..8 -> Idx(Motions)]) : gt' = TLCEval([t \in 1..k |-> IF t = 1 THEN 1 ELSE f[t]])
    /\ n' = k /\ seen' = [p \in Idx(Planes) |-> <<>>] /\ traj' = IdTraj(k)
    /\ Log([op |-> "renew", n |-> k, np |-> Len(Planes)])
Empty(k) == TLCEval([t \in 1..k |-> <<>>])
AddPlane(p) == seen[p] = <<>> /\ seen' = [seen EXCEPT ![p] = Empty(n)] /\ UNCHANGED <<n, gt, traj>> /\ Log([op |-> "add", p |-> p])
(* a plane that arrives with all its points; v: at which times it was seen *)
AddFull(p, v, s) ==
    /\ seen[p] = <<>> /\ seen' = [seen EXCEPT ![p] = TLCEval([t \in 1..n |-> IF t \in v THEN << <<4, s>> >> ELSE <<>>])]
    /\ UNCHANGED <<n, gt, traj>>
    /\ Log([op |-> "addfull", p |-> p, pts |-> TLCEval([t \in 1..n |-> IF t \in v THEN View(p, t, 4, s) ELSE <<>>])])
See(p, t, k, s) ==
    /\ seen[p] # <<>> /\ Len(seen[p][t]) < 2 /\ seen' = [seen EXCEPT ![p][t] = Append(@, <<k, s>>)]
    /\ UNCHANGED <<n, gt, traj>> /\ Log([op |-> "see", p |-> p, t |-> t, pts |-> View(p, t, k, s)])
SetLast(g) == /\ Motions[g].q[1] # 0          \* half turns have two logarithms
              /\ traj' = TLCEval([t \in 1..n |-> [kind |-> "interp", num |-> t - 1, den |-> n - 1, g |-> Motions[g], ln |-> TLn(Motions[g])]])
              /\ UNCHANGED <<n, gt, seen>> /\ Log([op |-> "last", g |-> Motions[g]])
Reset == traj' = IdTraj(n) /\ UNCHANGED <<n, gt, seen>> /\ Log([op |-> "reset"])
Initialise ==
    LET f == FirstFail(2) IN
    /\ traj' = TLCEval([t \in 1..n |-> IF t = 1 \/ t >= f THEN traj[t]
                                       ELSE IF Outcome(t) = "exact" THEN [kind |-> "pose", g |-> Motions[gt[t]]]
                                       ELSE [kind |-> "means", c |-> Common(t)]])
    /\ UNCHANGED <<n, gt, seen>>
    /\ Log([op |-> "init", ok |-> f = n + 1, first |-> f, outcome |-> TLCEval([t \in 1..n |-> IF t = 1 THEN "first" ELSE Outcome(t)])])
(* interpolating optimisers put every pose on the interpolation of the last; damped ones may also change nothing *)
Optimise(m, one) ==
    /\ Solvable
    /\ traj' = TLCEval([t \in 1..n |-> IF t = 1 THEN traj[t]
                                       ELSE [kind |-> IF m = "GRADIENT_ALL_POSES" THEN "any" ELSE IF m \in {"LM_SPHER", "LM_ELLIP"} THEN "follows or kept" ELSE "follows"]])
    /\ UNCHANGED <<n, gt, seen>> /\ Log([op |-> "solve", m |-> m, one |-> one])
Look == UNCHANGED <<n, gt, seen, traj>> /\ Log([op |-> "look", known |-> Known, gt |-> TLCEval([t \in 1..n |-> Motions[gt[t]]])])
Evaluate == UNCHANGED <<n, gt, seen, traj>> /\ Log([op |-> "evaluate"])

Unknown == Idx(Planes) \ Known
Do(o) ==
  CASE n = 0 -> Renew
    [] o = "renew" -> Renew
    [] o = "add" /\ Unknown # {} -> \E p \in Ch(Unknown) : AddPlane(p)
    [] o = "addfull" /\ Unknown # {} -> \E p \in Ch(Unknown), v \in Ch({1..n, 1..n} \cup (IF Sampling THEN {RandomElement(SUBSET (1..n))} ELSE SUBSET (1..n))), s \in Ch(Idx(Shakes)) : AddFull(p, v, s)
    [] o = "see" /\ Known # {} -> \E p \in Ch(Known), t \in Ch(1..n), k \in Ch({4, 4, 3, 1}), s \in Ch(Idx(Shakes)) : IF Len(seen[p][t]) < 2 THEN See(p, t, k, s) ELSE Look
    [] o = "last" -> \E g \in Ch({i \in Idx(Motions) : Motions[i].q[1] # 0}) : SetLast(g)
    [] o = "reset" -> Reset
    [] o = "init" /\ Known # {} -> Initialise
    [] o = "solve" /\ Solvable -> \E m \in Ch(Modes), one \in Ch({TRUE, FALSE}) : Optimise(m, one)
    [] o = "evaluate" -> Evaluate
    [] OTHER -> Look
Useful(o) == CASE o = "renew" -> RandomElement(1..15) = 1
               [] o \in {"init", "solve"} -> Cardinality(Known) >= 3 \/ RandomElement(1..6) = 1
               [] o = "solve" -> Solvable
               [] o = "evaluate" -> RandomElement(1..2) = 1
               [] OTHER -> TRUE
Growth == {"addfull", "see", "add"} \cap OpSet
Op == IF ~Sampling THEN OpSet ELSE IF Cardinality(Known) < 3 /\ RandomElement(1..3) > 1 THEN {RandomElement(Growth)}
      ELSE LET U == {o \in OpSet : Useful(o)} IN {RandomElement(IF U = {} THEN Growth ELSE U)}
Next == Len(hist) < MaxLen /\ (\E o \in Op : Do(o)) /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<n, gt, seen, traj, before, hist>>
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Next \/ Finish]_vars

(* every visibility pattern of a few planes over two or three poses, initialised from a trajectory set before *)
AllVis == \E k \in NPoses, f \in [2..3 -> Idx(Motions)] : \E vis \in [Idx(Planes) -> SUBSET (1..k)] :
    /\ hist = <<>> /\ n' = k /\ gt' = TLCEval([t \in 1..k |-> IF t = 1 THEN 1 ELSE f[t]])
    /\ seen' = TLCEval([p \in Idx(Planes) |-> TLCEval([t \in 1..k |-> IF t \in vis[p] THEN << <<4, 1>> >> ELSE <<>>])])
    /\ traj' = TLCEval([t \in 1..k |-> [kind |-> "interp", num |-> t - 1, den |-> k - 1, g |-> Motions[2], ln |-> TLn(Motions[2])]])
    /\ hist' = TLCEval(<<[op |-> "renew", n |-> k, np |-> Len(Planes), traj |-> IdTraj(k)]>>
         \o [p \in Idx(Planes) |-> [op |-> "addfull", p |-> p, traj |-> IdTraj(k),
                 pts |-> TLCEval([t \in 1..k |-> IF t \in vis[p] THEN TLCEval([i \in 1..4 |-> LET y == TAct(TInv(Motions[gt'[t]]), Planes[p][i], 1) IN [p |-> y.p, w |-> y.w]]) ELSE <<>>])]]
         \o <<[op |-> "last", g |-> Motions[2], traj |-> traj']>>)
    /\ UNCHANGED <<before, done>>
VisInit == Len(hist) = Len(Planes) + 2 /\ Initialise /\ UNCHANGED done
VisSpec == Init /\ [][AllVis \/ VisInit]_vars
EmitInit == Len(hist') = Len(Planes) + 3 => PrintT("@@" \o ToJson(hist'))

(*************************** properties ************************************)
FirstFixed == n > 0 => traj[1].kind \in {"pose", "interp"} /\ (traj[1].kind = "interp" => traj[1].num = 0) /\ (traj[1].kind = "pose" => traj[1].g = Motions[1])
LastIs == n > 0 /\ traj[n].kind = "interp" => traj[n].num = traj[n].den
(* resets and pose settings keep the points; only renewal removes them *)
KeepsPoints == [][n' = n /\ hist'[Len(hist')].op # "renew" => \A p \in Idx(Planes) : seen[p] # <<>> => seen'[p] # <<>> /\ \A t \in 1..n : IsPrefix(seen[p][t], seen'[p][t])]_vars
(* a failed initialisation leaves the pose that failed and all later ones *)
FailureKeeps == [][hist' # hist /\ hist'[Len(hist')].op = "init" => \A t \in 1..n : t >= hist'[Len(hist')].first => traj'[t] = traj[t]]_vars
(* exact data: success means the ground truth *)
InitExact == [][hist' # hist /\ hist'[Len(hist')].op = "init" /\ hist'[Len(hist')].ok => \A t \in 2..n : traj'[t].kind = "pose" => traj'[t].g = Motions[gt[t]]]_vars
=============================================================================
