------------------------------- MODULE PlaneFit -------------------------------
(***************************************************************************)
(* Fitting a plane to a growing point cloud (estimate_plane,               *)
(* estimate_normal, estimate_centroid).  A cloud lives in an integer frame  *)
(* (three orthogonal integer vectors); a sample is a lattice position on    *)
(* the first two axes, either on the plane or as a pair at equal heights on *)
(* both sides of it.  Whether the third axis is the unique direction of     *)
(* least scatter is then decided by integer inequalities.                   *)
(***************************************************************************)
EXTENDS Exact, Json
CONSTANTS Frames, Coords, Heights, Origins, Ts, Scales, MaxSamples, MaxLen, Sampling
VARIABLES frame, org, T, scale, smp, hist, done
vars == <<frame, org, T, scale, smp, hist, done>>
Ch(A) == IF Sampling THEN {RandomElement(A)} ELSE A
Idx(s) == 1..Len(s)
N2(v) == Dot(v, v)
ASSUME \A f \in Idx(Frames) : LET F == Frames[f] IN
    Dot(F[1], F[2]) = 0 /\ Dot(F[1], F[3]) = 0 /\ Dot(F[2], F[3]) = 0 /\ N2(F[1]) <= 27 /\ N2(F[2]) <= 27 /\ N2(F[3]) <= 27

(* rows: coordinates in the frame; a height gives two rows *)
RowsOf(s) == IF s[3] = 0 THEN << s >> ELSE << s, <<s[1], s[2], -s[3]>> >>
Coord == FlattenSeq(TLCEval([i \in Idx(smp) |-> RowsOf(smp[i])]))
InFrame(c) == LET F == Frames[frame] IN VAdd(org, VAdd(VScale(c[1], F[1]), VAdd(VScale(c[2], F[2]), VScale(c[3], F[3]))))
Points == LET C == Coord IN TLCEval([i \in Idx(C) |-> TAct(T, InFrame(C[i]), 1)])
(* N times the central second moments along the (unnormalised) axes *)
Mom(C, a, b) == LET n == Len(C)
                    ab == SumTo(TLCEval([i \in Idx(C) |-> C[i][a] * C[i][b]]), n)
                    sa == SumTo(TLCEval([i \in Idx(C) |-> C[i][a]]), n)
                    sb == SumTo(TLCEval([i \in Idx(C) |-> C[i][b]]), n)
                IN n * ab - sa * sb
(* scatter in the plane [[A, B],[B, D]] with B^2 = B2, and across it *)
A == Mom(Coord, 1, 1) * N2(Frames[frame][1])
D == Mom(Coord, 2, 2) * N2(Frames[frame][2])
B2 == LET m == Mom(Coord, 1, 2) IN (m * N2(Frames[frame][1])) * (m * N2(Frames[frame][2]))
H == Mom(Coord, 3, 3) * N2(Frames[frame][3])
Unique == A > H /\ D > H /\ (A - H) * (D - H) > B2
Normal == LET R == RotN(T.q) IN MVec(R, Frames[frame][3])
Centroid == LET C == Coord n == Len(C)
                s == TLCEval([a \in 1..3 |-> SumTo(TLCEval([i \in Idx(C) |-> C[i][a]]), n)])
                F == Frames[frame]
                p == VAdd(VScale(n, org), VAdd(VScale(s[1], F[1]), VAdd(VScale(s[2], F[2]), VScale(s[3], F[3]))))
            IN TAct(T, p, n)

Init == frame = 0 /\ org = <<0, 0, 0>> /\ T = TId /\ scale = 0 /\ smp = <<>> /\ hist = <<>> /\ done = FALSE
Begin == /\ frame = 0
         /\ \E f \in Ch(Idx(Frames)), o \in Ch(Idx(Origins)), t \in Ch(Idx(Ts)), s \in Ch(Idx(Scales)) :
              frame' = f /\ org' = Origins[o] /\ T' = Ts[t] /\ scale' = Scales[s]
         /\ UNCHANGED <<smp, hist, done>>
Add == /\ frame # 0 /\ Len(smp) < MaxSamples
       /\ \E u \in Ch(Coords), v \in Ch(Coords), k \in Ch(Idx(Heights)) : smp' = Append(smp, <<u, v, Heights[k]>>)
       /\ UNCHANGED <<frame, org, T, scale, hist, done>>
(* the cloud as a whole is moved: the plane must follow *)
Move == /\ frame # 0 /\ smp # <<>>
        /\ \E t \in Ch(Idx(Ts)) : T' = Ts[t]
        /\ UNCHANGED <<frame, org, scale, smp, hist, done>>
Verdict == [pts |-> Points, unique |-> Unique, normal |-> Normal, centroid |-> Centroid, flat |-> H = 0, scale |-> scale, A |-> A, D |-> D, B2 |-> B2, H |-> H]
Ask == /\ frame # 0 /\ Len(Coord) >= 3 /\ Len(hist) < MaxLen
       /\ hist' = Append(hist, Verdict)
       /\ UNCHANGED <<frame, org, T, scale, smp, done>>
Finish == ~done /\ Len(hist) > 0 /\ (Len(hist) = MaxLen \/ Len(smp) = MaxSamples) /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE
          /\ UNCHANGED <<frame, org, T, scale, smp, hist>>
SimNext == IF frame = 0 THEN Begin ELSE IF done THEN FALSE
           ELSE IF Len(hist) = MaxLen \/ (Len(smp) = MaxSamples /\ hist # <<>>) THEN Finish
           ELSE \E k \in Ch(1..5) : IF k <= 2 /\ Len(Coord) >= 3 THEN Ask ELSE IF k = 3 /\ smp # <<>> THEN Move ELSE IF Len(smp) < MaxSamples THEN Add ELSE Ask
SimSpec == Init /\ [][SimNext]_vars
(* every multiset of samples up to a size, every frame *)
Code(s) == 10000 * (s[1] + 10) + 100 * (s[2] + 10) + s[3] + 10
AllAdd == /\ frame # 0 /\ Len(smp) < MaxSamples /\ ~done
          /\ \E u, v \in Coords, k \in Idx(Heights) : LET s == <<u, v, Heights[k]>> IN
                 (IF smp = <<>> THEN TRUE ELSE Code(s) >= Code(smp[Len(smp)])) /\ smp' = Append(smp, s)
          /\ UNCHANGED <<frame, org, T, scale, hist, done>>
AllEmit == /\ frame # 0 /\ Len(Coord) >= 3 /\ ~done /\ Unique
           /\ hist' = <<Verdict>> /\ done' = TRUE /\ PrintT("@@" \o ToJson(hist')) /\ UNCHANGED <<frame, org, T, scale, smp>>
AllSpec == Init /\ [][Begin \/ AllAdd \/ AllEmit]_vars

(*************************** properties ************************************)
(* the pairs keep the cloud's moments across the plane uncorrelated with those in it *)
Uncorrelated == frame # 0 /\ smp # <<>> => Mom(Coord, 1, 3) = 0 /\ Mom(Coord, 2, 3) = 0
(* a unique direction needs three non collinear positions *)
NeedsExtent == frame # 0 /\ smp # <<>> /\ Unique => A > 0 /\ D > 0 /\ Len(smp) >= 2
(* uniqueness does not depend on where the cloud is *)
MotionFree == [][T' # T /\ frame # 0 => (Unique' <=> Unique)]_vars
(* with all samples on the plane: unique exactly when the positions are not collinear *)
FlatUnique == frame # 0 /\ smp # <<>> /\ H = 0 =>
    (Unique <=> \E a, b, c \in Idx(smp) : (smp[b][1] - smp[a][1]) * (smp[c][2] - smp[a][2]) # (smp[b][2] - smp[a][2]) * (smp[c][1] - smp[a][1]))
=============================================================================
