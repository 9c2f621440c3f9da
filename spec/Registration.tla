---------------------------- MODULE Registration ----------------------------
(***************************************************************************)
(* Registration of corresponding point clouds (mrob arun, weighted, gicp). *)
(* Clouds grow one correspondence at a time; at any moment the registration *)
(* may be asked for.  Points are integer vectors, motions exact elements,  *)
(* so well-posedness and the optimum are decided exactly:                  *)
(*  pairs  every target is the moved source point, or two targets at equal  *)
(*         distances on both sides of it (inconsistent data whose optimum   *)
(*         is still the motion); targets of weight zero lie anywhere        *)
(*  sym    orbits under the sign changes of the axes, stretched and         *)
(*         mirrored along the axes: the optimum is the motion times one of  *)
(*         the four half turns, found by comparing four integers            *)
(*  free   unrelated targets: the exact cross moment and its rank          *)
(***************************************************************************)
EXTENDS Exact, Json
CONSTANTS Ts, Points, Pools, Noises, Weights, Covs, Orbits, Stretches, Offsets, Scales, Starts,
          Modes, Methods, MaxCs, MaxLen, Sampling
VARIABLES mode, pool, T, S, off, scale, cs, hist, done
vars == <<mode, pool, T, S, off, scale, cs, hist, done>>
Ch(A) == IF Sampling THEN {RandomElement(A)} ELSE A
Idx(s) == 1..Len(s)
Zero3 == <<0, 0, 0>>

(* pool: the indices of the points this history draws from *)
(* rows: [x, y (numerators), yw (denominator), w, cx, cy] *)
Act(A, p) == TAct(A, p, 1)
Plus(y, d) == [p |-> TLCEval([i \in 1..3 |-> y.p[i] + d[i] * y.w]), w |-> y.w]
Row(x, y, w, cx, cy) == [x |-> x, y |-> y.p, yw |-> y.w, w |-> w, cx |-> cx, cy |-> cy]
Signs == {<<a, b, c>> : a, b, c \in {-1, 1}}
SgnSeq == << <<1,1,1>>, <<1,1,-1>>, <<1,-1,1>>, <<1,-1,-1>>, <<-1,1,1>>, <<-1,1,-1>>, <<-1,-1,1>>, <<-1,-1,-1>> >>
Had(u, v) == <<u[1] * v[1], u[2] * v[2], u[3] * v[3]>>
RowsOf(c) ==
  LET x == VAdd(c.x, off) IN
  CASE mode = "pairs" -> IF c.w = 0 THEN << Row(x, [p |-> c.d, w |-> 1], 0, c.cx, c.cy) >>
                         ELSE IF c.d = Zero3 THEN << Row(x, Act(T, x), c.w, c.cx, c.cy) >>
                         ELSE << Row(x, Plus(Act(T, x), c.d), c.w, c.cx, c.cy), Row(x, Plus(Act(T, x), VScale(-1, c.d)), c.w, c.cx, c.cy) >>
    [] mode = "free" -> << Row(x, Plus(Act(T, x), c.d), c.w, c.cx, c.cy) >>
    [] mode = "sym" -> TLCEval([k \in 1..8 |-> LET xx == VAdd(Had(SgnSeq[k], c.x), off) IN Row(xx, Act(T, Had(S, xx)), 1, 1, 1)])
AllRows == FlattenSeq(TLCEval([i \in 1..Len(cs) |-> RowsOf(cs[i])]))

(* dimension of the affine hull of the points in use: 0, 1, or 2 for more *)
Used(rows) == {rows[i].x : i \in {j \in Idx(rows) : rows[j].w > 0}}
Rank(P) == IF Cardinality(P) <= 1 THEN 0
           ELSE IF \A a, b, c \in P : Cross(VSub(b, a), VSub(c, a)) = Zero3 THEN 1 ELSE 2

(* sym: scatter along the axes, and the best of the four half turns *)
Scatter == TLCEval([a \in 1..3 |-> SumTo(TLCEval([i \in 1..Len(cs) |-> 8 * cs[i].x[a] * cs[i].x[a]]), Len(cs))])
Turns == << <<1,1,1>>, <<1,-1,-1>>, <<-1,1,-1>>, <<-1,-1,1>> >>
TurnQ == << <<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>> >>
Score(e) == Dot(e, Had(Scatter, S))
Best == {k \in 1..4 : \A j \in 1..4 : Score(Turns[k]) >= Score(Turns[j])}
SymPosed == Cardinality(Best) = 1 /\ Cardinality({a \in 1..3 : Scatter[a] * S[a] # 0}) >= 2
SymCollinear == Cardinality({a \in 1..3 : Scatter[a] # 0}) <= 1 \/ Cardinality({a \in 1..3 : Scatter[a] * S[a] # 0}) <= 1
(* translation: T.t + R (S - E) cx with cx = off *)
SymOptimum == LET e == CHOOSE k \in Best : TRUE
                  x == TAct(T, Had(VSub(S, Turns[e]), off), 1)
              IN TReduce(QMul(T.q, TurnQ[e]), x.p, x.w)
(* all rotations of the cube, as signed permutations of determinant one *)
Cube == {m \in {[p |-> p, s |-> s] : p \in { <<1,2,3>>, <<2,3,1>>, <<3,1,2>>, <<1,3,2>>, <<3,2,1>>, <<2,1,3>> }, s \in Signs} :
           (IF m.p \in { <<1,2,3>>, <<2,3,1>>, <<3,1,2>> } THEN 1 ELSE -1) * m.s[1] * m.s[2] * m.s[3] = 1}
CubeScore(m) == Sum(TLCEval([i \in 1..3 |-> IF m.p[i] = i THEN m.s[i] * Scatter[i] * S[i] ELSE 0]))

Posed == CASE mode = "pairs" -> Rank(Used(AllRows)) = 2
           [] mode = "sym"   -> SymPosed
           [] mode = "free"  -> Rank(Used(AllRows)) = 2
Fails == CASE mode = "pairs" -> Rank(Used(AllRows)) < 2
           [] mode = "sym"   -> SymCollinear
           [] mode = "free"  -> Rank(Used(AllRows)) < 2
Optimum == CASE mode = "pairs" -> T [] mode = "sym" -> SymOptimum [] mode = "free" -> T

Init == /\ mode = "none" /\ pool = <<>> /\ T = TId /\ S = <<1, 1, 1>> /\ off = Zero3 /\ scale = 0 /\ cs = <<>> /\ hist = <<>> /\ done = FALSE
Begin == /\ mode = "none"
         /\ \E m \in Ch(Modes), t \in Ch(Idx(Ts)), s \in Ch(Idx(Stretches)), o \in Ch(Idx(Offsets)), k \in Ch(Idx(Scales)), p \in Ch(Idx(Pools)) :
              /\ pool' = Pools[p] /\ mode' = m /\ T' = Ts[t] /\ S' = (IF m = "sym" THEN Stretches[s] ELSE <<1, 1, 1>>) /\ off' = Offsets[o] /\ scale' = Scales[k]
         /\ UNCHANGED <<cs, hist, done>>
Add == /\ mode # "none" /\ Len(cs) < MaxCs
       /\ \E x \in Ch(Idx(pool)), d \in Ch(Idx(Noises)), w \in Ch(Idx(Weights)), a \in Ch(Idx(Covs)), b \in Ch(Idx(Covs)), o \in Ch(Idx(Orbits)) :
            cs' = Append(cs, [x |-> IF mode = "sym" THEN Orbits[o] ELSE Points[pool[x]], d |-> Noises[d], w |-> IF mode = "sym" THEN 1 ELSE Weights[w], cx |-> a, cy |-> b])
       /\ UNCHANGED <<mode, pool, T, S, off, scale, hist, done>>
Verdict(m, M) == [meth |-> m, mode |-> mode, scale |-> scale, rows |-> AllRows, posed |-> Posed, fails |-> Fails, T |-> IF Posed THEN Optimum ELSE T,
                  start |-> IF m = "arun" THEN M ELSE TMul(M, T)]
EqualWeights == \A i \in Idx(cs) : cs[i].w = 1
(* arun takes no weights and may be asked about anything; the others need a well-posed problem *)
Ask == /\ mode # "none" /\ Len(AllRows) >= 3 /\ Len(hist) < MaxLen
       /\ \E m \in Ch(Methods), s \in Ch(Idx(Starts)) :
            /\ (m = "arun" => EqualWeights)
            /\ (m # "arun" => mode # "sym" /\ Posed)
            /\ hist' = Append(hist, Verdict(m, Starts[s]))
       /\ UNCHANGED <<mode, pool, T, S, off, scale, cs, done>>
Next == Begin \/ Add \/ Ask
Finish == ~done /\ hist # <<>> /\ (Len(hist) = MaxLen \/ Len(cs) = MaxCs) /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE
          /\ UNCHANGED <<mode, pool, T, S, off, scale, cs, hist>>
Spec == Init /\ [][Next]_vars
SimNext == IF mode = "none" THEN Begin
           ELSE IF done THEN FALSE
           ELSE IF Len(hist) = MaxLen \/ (Len(cs) = MaxCs /\ hist # <<>>) THEN Finish
           ELSE \E k \in Ch(1..3) : IF k = 1 /\ Len(AllRows) >= 3 THEN (IF ENABLED Ask THEN Ask ELSE Add) ELSE (IF Len(cs) < MaxCs THEN Add ELSE Ask)
SimSpec == Init /\ [][SimNext]_vars

(* every small set of lattice points (in increasing order of their index), each asked once *)
SetAdd == /\ mode # "none" /\ Len(cs) < MaxCs
          /\ \E x \in Idx(Points) :
               /\ (IF Len(cs) = 0 THEN TRUE ELSE cs[Len(cs)].n < x)
               /\ cs' = Append(cs, [n |-> x, x |-> Points[x], d |-> Zero3, w |-> 1, cx |-> 1, cy |-> 1])
          /\ UNCHANGED <<mode, pool, T, S, off, scale, hist, done>>
SetEmit == /\ mode # "none" /\ Len(cs) >= 3 /\ ~done
           /\ hist' = <<Verdict("arun", Starts[1])>> /\ PrintT("@@" \o ToJson(hist')) /\ done' = TRUE
           /\ UNCHANGED <<mode, pool, T, S, off, scale, cs>>
SetSpec == Init /\ [][Begin \/ (~done /\ SetAdd) \/ SetEmit]_vars
(* every combination of orbits and stretches *)
OrbitAdd == /\ mode = "sym" /\ Len(cs) < MaxCs
            /\ \E x \in Idx(Orbits) : (IF Len(cs) = 0 THEN TRUE ELSE cs[Len(cs)].n < x) /\ cs' = Append(cs, [n |-> x, x |-> Orbits[x], d |-> Zero3, w |-> 1, cx |-> 1, cy |-> 1])
            /\ UNCHANGED <<mode, pool, T, S, off, scale, hist, done>>
OrbitEmit == /\ mode = "sym" /\ Len(cs) >= 1 /\ ~done
             /\ hist' = <<Verdict("arun", Starts[1])>> /\ PrintT("@@" \o ToJson(hist')) /\ done' = TRUE
             /\ UNCHANGED <<mode, pool, T, S, off, scale, cs>>
OrbitSpec == Init /\ [][Begin \/ (~done /\ OrbitAdd) \/ OrbitEmit]_vars

(*************************** properties ************************************)
(* a problem is never both well posed and to be refused *)
Decided == mode # "none" /\ cs # <<>> => ~(Posed /\ Fails)
(* no rotation of the cube does better than the best half turn, and none as well when it is unique *)
HalfTurnsSuffice == mode = "sym" /\ cs # <<>> =>
    LET k == CHOOSE j \in Best : TRUE IN \A m \in Cube : CubeScore(m) <= Score(Turns[k])
UniqueAmongCube == mode = "sym" /\ cs # <<>> /\ SymPosed =>
    LET k == CHOOSE j \in Best : TRUE IN \A m \in Cube : CubeScore(m) = Score(Turns[k]) => m.p = <<1, 2, 3>> /\ m.s = Turns[k]
(* without mirroring the half turn is the identity; with one mirrored axis it is not *)
NoTurnUnmirrored == mode = "sym" /\ cs # <<>> /\ SymPosed /\ (\A a \in 1..3 : S[a] > 0) => Best = {1}
(* more points never make a well-posed problem ill-posed *)
MorePoints == [][mode = "pairs" /\ cs # <<>> /\ Posed /\ cs' # cs => Posed']_vars
=============================================================================
