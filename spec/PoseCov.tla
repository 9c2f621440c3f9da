------------------------------ MODULE PoseCov ------------------------------
(***************************************************************************)
(* Uncertain poses (mrob SE3Cov) and their compounding.  A register holds a *)
(* rigid transformation and a rational covariance S/d (rotation first).     *)
(* The fourth order terms are defined from the structure constants of the   *)
(* curly wedge, i.e. from the expectations they stand for, not from the     *)
(* block formulas of the implementation.                                    *)
(***************************************************************************)
EXTENDS Exact, Json
CONSTANTS NReg, MaxLen, MaxS, MaxT, Gens, Covs, OpSet, Sampling
VARIABLES reg, hist, done
vars == <<reg, hist, done>>
Reg == 1..NReg
ASSUME \A g \in 1..Len(Gens) : Gens[g] = TMake(Gens[g].q, Gens[g].t, Gens[g].w)
ASSUME \A c \in 1..Len(Covs) : Covs[c] = MT(Covs[c])

(* (x curly y)_a is the sum of s * x[j] * y[k] over these <<s, j, k>> *)
Terms(a) == CASE a = 1 -> << <<1,2,3>>, <<-1,3,2>> >>
              [] a = 2 -> << <<1,3,1>>, <<-1,1,3>> >>
              [] a = 3 -> << <<1,1,2>>, <<-1,2,1>> >>
              [] a = 4 -> << <<1,5,3>>, <<-1,6,2>>, <<1,2,6>>, <<-1,3,5>> >>
              [] a = 5 -> << <<1,6,1>>, <<-1,4,3>>, <<1,3,4>>, <<-1,1,6>> >>
              [] a = 6 -> << <<1,4,2>>, <<-1,5,1>>, <<1,1,5>>, <<-1,2,4>> >>
(* E[(x curly y)(x curly y)^T] for independent x, y of covariances S1, S2 *)
BTerm(S1, S2) == TLCEval([a \in 1..6 |-> [b \in 1..6 |->
     LET ta == Terms(a) tb == Terms(b) IN
     SumTo(TLCEval([i \in 1..Len(ta) |-> SumTo(TLCEval([j \in 1..Len(tb) |->
        ta[i][1] * tb[j][1] * S1[ta[i][2]][tb[j][2]] * S2[ta[i][3]][tb[j][3]]]), Len(tb))]), Len(ta))]])
(* E[x curly x curly] : entry (a, b) of the squared operator *)
Row(a, k) == SelectSeq(Terms(a), LAMBDA t : t[3] = k)
ATerm(S) == TLCEval([a \in 1..6 |-> [b \in 1..6 |->
     LET ta == Terms(a) IN
     SumTo(TLCEval([i \in 1..Len(ta) |-> LET tb == Row(ta[i][3], b) IN
        SumTo(TLCEval([j \in 1..Len(tb) |-> ta[i][1] * tb[j][1] * S[ta[i][2]][tb[j][2]]]), Len(tb))]), Len(ta))]])

(* adjoint over an integer denominator: AdjN(A) / AdjD(A) *)
AdjD(A) == QNorm2(A.q) * A.w
AdjN(A) == LET R == RotN(A.q) X == MMul(Hat(A.t), R) IN
    TLCEval([i \in 1..6 |-> TLCEval([j \in 1..6 |->
        IF i <= 3 THEN IF j <= 3 THEN A.w * R[i][j] ELSE 0
        ELSE IF j <= 3 THEN X[i - 3][j] ELSE A.w * R[i - 3][j - 3]])])
(* move a covariance S/d through A, reduced *)
MaxM(S) == MaxAbs(TLCEval([i \in 1..Len(S) |-> MaxAbs(S[i])]))
GcdM(S, d) == GcdSeq(TLCEval([i \in 1..Len(S) |-> GcdSeq(S[i], 1, d)]), 1, d)
CReduce(S, d) == LET g == GcdM(S, d) IN [S |-> TLCEval([i \in 1..6 |-> TLCEval([j \in 1..6 |-> S[i][j] \div g])]), d |-> d \div g]
Move(A, C) == LET N == AdjN(A) IN CReduce(MMul(MMul(N, C.S), MT(N)), C.d * AdjD(A) * AdjD(A))

CAdd(C, D) == CReduce(MAdd(MScale(D.d, C.S), MScale(C.d, D.S)), C.d * D.d)
Second(C1, C2m) == CAdd(C1, C2m)
Fourth(C1, C2m) ==
   LET A1 == ATerm(C1.S) A2 == ATerm(C2m.S)
       X == MAdd(MMul(A1, C2m.S), MMul(A2, C1.S))
       Corr == MAdd(MAdd(X, MT(X)), MScale(3, BTerm(C1.S, C2m.S)))
       dd == C1.d * C2m.d
   IN CReduce(MAdd(MAdd(MScale(12 * C2m.d, C1.S), MScale(12 * C1.d, C2m.S)), Corr), 12 * dd)

Init == /\ reg = [r \in Reg |-> [T |-> TId, C |-> [S |-> ZeroM(6, 6), d |-> 1]]]
        /\ hist = <<>> /\ done = FALSE
Log(rec) == hist' = TLCEval(Append(hist, rec))
Skip == Sampling /\ UNCHANGED <<reg, hist>>
Fits(T, C) == TSize(T) <= MaxT /\ MaxM(C.S) <= MaxS /\ C.d <= MaxS
Put(k, T, C, rec) == IF Fits(T, C)
                     THEN reg' = TLCEval([reg EXCEPT ![k] = [T |-> T, C |-> C]]) /\ Log(rec @@ [k |-> k, T |-> T, C |-> C])
                     ELSE Skip
Cov(c) == [S |-> Covs[c], d |-> 1]
(* intermediate products must stay within 32 bits *)
MoveFits(A, C) == AdjD(A) * AdjD(A) * C.d <= 20000 /\ MaxM(AdjN(A)) * MaxM(AdjN(A)) * 36 <= 2000000000 \div (1 + MaxM(C.S))
FourthFits(C, D) == LET m == 1 + MaxM(C.S) n == 1 + MaxM(D.S) IN
    m <= 4000 /\ n <= 4000 /\ m * n <= 4000000 /\ C.d <= 300 /\ D.d <= 300 /\ C.d * D.d <= 20000 /\ C.d * n <= 2000000 /\ D.d * m <= 2000000
SecondFits(C, D) == LET m == 1 + MaxM(C.S) n == 1 + MaxM(D.S) IN C.d <= 20000 /\ D.d <= 20000 /\ C.d * D.d <= 200000000
                        /\ n <= 1000000000 \div C.d /\ m <= 1000000000 \div D.d
Comp(order, i, T2, C2, k, rec) ==
   LET A == reg[i].T C1 == reg[i].C IN
   IF TSize(T2) > 600 \/ TSize(A) > 600 \/ ~MoveFits(A, C2) THEN Skip
   ELSE LET M == Move(A, C2) IN
        IF order = 2 THEN IF SecondFits(C1, M) THEN Put(k, TMul(A, T2), Second(C1, M), rec) ELSE Skip
        ELSE IF FourthFits(C1, M) THEN Put(k, TMul(A, T2), Fourth(C1, M), rec) ELSE Skip

Load(k, g, c)   == Put(k, Gens[g], Cov(c), [op |-> "load"])
C2(i, j, k)     == Comp(2, i, reg[j].T, reg[j].C, k, [op |-> "c2", i |-> i, j |-> j])
C4(i, j, k)     == Comp(4, i, reg[j].T, reg[j].C, k, [op |-> "c4", i |-> i, j |-> j])
C2m(i, g, c, k) == Comp(2, i, Gens[g], Cov(c), k, [op |-> "c2m", i |-> i, g |-> Gens[g], c |-> Covs[c]])
C4m(i, g, c, k) == Comp(4, i, Gens[g], Cov(c), k, [op |-> "c4m", i |-> i, g |-> Gens[g], c |-> Covs[c]])
Mul(i, j, k)    == Comp(2, i, reg[j].T, reg[j].C, k, [op |-> "mul", i |-> i, j |-> j])
Star(i, j, k)   == Comp(2, i, reg[j].T, reg[j].C, k, [op |-> "star", i |-> i, j |-> j])
Copy(i, k)      == Put(k, reg[i].T, reg[i].C, [op |-> "copy", i |-> i])

Ch(S) == IF Sampling THEN {RandomElement(S)} ELSE S
GS == 1..Len(Gens)
CS == 1..Len(Covs)
Do(o) ==
  CASE o = "load" -> \E k \in Ch(Reg), g \in Ch(GS), c \in Ch(CS) : Load(k, g, c)
    [] o = "c2"   -> \E i \in Ch(Reg), j \in Ch(Reg), k \in Ch(Reg) : C2(i, j, k)
    [] o = "c4"   -> \E i \in Ch(Reg), j \in Ch(Reg), k \in Ch(Reg) : C4(i, j, k)
    [] o = "c2m"  -> \E i \in Ch(Reg), g \in Ch(GS), c \in Ch(CS), k \in Ch(Reg) : C2m(i, g, c, k)
    [] o = "c4m"  -> \E i \in Ch(Reg), g \in Ch(GS), c \in Ch(CS), k \in Ch(Reg) : C4m(i, g, c, k)
    [] o = "mul"  -> \E i \in Ch(Reg), j \in Ch(Reg), k \in Ch(Reg) : Mul(i, j, k)
    [] o = "star" -> \E i \in Ch(Reg), j \in Ch(Reg), k \in Ch(Reg) : Star(i, j, k)
    [] o = "copy" -> \E i \in Ch(Reg), k \in Ch(Reg) : Copy(i, k)
Next == Len(hist) < MaxLen /\ (\E o \in Ch(OpSet) : Do(o)) /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<reg, hist>>
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Next \/ Finish]_vars

(* every pair of the catalogue, every kind of compounding *)
PairNext == /\ ~done /\ done' = TRUE /\ UNCHANGED reg
            /\ \E g, h \in GS, c, e \in CS, o \in OpSet :
                 LET A == Gens[g] M == Move(A, Cov(e))
                     C == IF o \in {"c4", "c4m"} THEN Fourth(Cov(c), M) ELSE Second(Cov(c), M)
                     first == [op |-> "load", k |-> 1, T |-> A, C |-> Cov(c)]
                     second == [op |-> "load", k |-> 2, T |-> Gens[h], C |-> Cov(e)]
                     r == [op |-> o, i |-> 1, j |-> 2, k |-> 3, g |-> Gens[h], c |-> Covs[e], T |-> TMul(A, Gens[h]), C |-> C]
                 IN hist' = <<g, h, c, e, o>> /\ PrintT("@@" \o ToJson(<<first, second, r>>))
PairSpec == Init /\ [][PairNext]_vars

(*************************** properties ************************************)
Symmetric == \A r \in Reg : reg[r].C.S = MT(reg[r].C.S)
Certain == [S |-> ZeroM(6, 6), d |-> 1]
CertainLaw == \A r \in Reg : LET C == reg[r].C IN
    FourthFits(C, C) => /\ Fourth(C, Certain) = C /\ Fourth(Certain, C) = C /\ Second(C, Certain) = C
(* moving through a product is moving twice; hence second order compounding is associative *)
MoveLaw == \A i, j \in Reg : LET A == reg[i].T B == reg[j].T C == reg[j].C IN
    (TSize(A) <= 4 /\ TSize(B) <= 4 /\ MaxM(C.S) <= 50 /\ C.d = 1) => Move(TMul(A, B), C) = Move(A, Move(B, C))
FourthSymmetricLaw == \A i, j \in Reg : LET C == reg[i].C D == reg[j].C IN
    (FourthFits(C, D)) => Fourth(C, D) = Fourth(D, C)
View == reg
EmitEach == PrintT("@@" \o ToJson(hist'))
=============================================================================
