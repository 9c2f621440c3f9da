----------------------------- MODULE FactorModel ----------------------------
(***************************************************************************)
(* One factor of the graph with its one or two nodes.  Node values and     *)
(* observations are exact: integer coordinates, headings as Gaussian       *)
(* integers (plus full turns), rational poses.  The residual is what the   *)
(* documentation of the factor defines; the Jacobian is *defined* as its   *)
(* derivative: by the rules of complex differentiation in 2D, by the       *)
(* generators of se(3) in 3D.  Real numbers are sums of terms              *)
(*      <<n, d, s>>  =  n / (d * sqrt(s))                                  *)
(* plus the argument of a Gaussian integer, wrapped.                       *)
(***************************************************************************)
EXTENDS Exact, Json, Randomization

CONSTANTS Kinds, P2s, L2s, P3s, L3s, PLs, O2s, ODOs, OL2s, Pts, Infos, Moves, Sampling

VARIABLES fac,    \* the factor: [kind, a0, b0, obs, rev, init] or <<>> before it is created
          a, b,   \* current values of the two nodes
          rs, js, \* node values when the residual / the Jacobian were last evaluated
          hist, done
vars == <<fac, a, b, rs, js, hist, done>>
NONE == [none |-> TRUE]

Kind2D == {"F1P2", "F2P2", "ODO", "F1L2"}
Unary == {"F1P2", "F1P3", "F1P3s", "PT2PL"}
Gm(x, y) == <<x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1]>>       \* no reduction: any non-zero factor is irrelevant to the argument
Gr(x) == LET k == Gcd(x[1], x[2]) IN <<x[1] \div k, x[2] \div k>>
Gc(x) == <<x[1], -x[2]>>
Gn(x) == x[1]*x[1] + x[2]*x[2]
T(n, d, s) == <<n, d, s>>
Neg(t) == <<-t[1], t[2], t[3]>>
Zero == <<>>
Comp(terms) == [s |-> terms, g |-> <<0, 0>>]
Arg(g) == [s |-> <<>>, g |-> Gr(g)]
One == T(1, 1, 1)
Nul == T(0, 1, 1)

(*************************** 2D ********************************************)
(* pose [x, y, g, k]; observation of a pose: x, y terms *)
ResF1P2(x, o) == << Comp(<<T(x.x, 1, 1), Neg(o.x)>>), Comp(<<T(x.y, 1, 1), Neg(o.y)>>), Arg(Gm(x.g, Gc(o.g))) >>
JacF1P2 == << <<One, Nul, Nul>>, <<Nul, One, Nul>>, <<Nul, Nul, One>> >>
(* displacement of the target in the frame of the origin: conj(g) d / |g| *)
Local(o, t) == Gm(Gc(o.g), <<t.x - o.x, t.y - o.y>>)
ResF2P2(x, y, o) == LET l == Local(x, y) n == Gn(x.g) IN
    << Comp(<<T(l[1], 1, n), Neg(o.x)>>), Comp(<<T(l[2], 1, n), Neg(o.y)>>), Arg(Gm(y.g, Gm(Gc(x.g), Gc(o.g)))) >>
(* d/dx, d/dy: conj(g) times -1, -i; d/dtheta: conj(g e^(i dth)) = -i conj(g) d *)
JacF2P2(x, y) == LET n == Gn(x.g) c == Gc(x.g) l == Local(x, y)
                     cx == Gm(c, <<1, 0>>) cy == Gm(c, <<0, 1>>) ct == Gm(<<0, -1>>, l)
                 IN [o |-> << <<T(-cx[1], 1, n), T(-cy[1], 1, n), T(ct[1], 1, n)>>,
                              <<T(-cx[2], 1, n), T(-cy[2], 1, n), T(ct[2], 1, n)>>, <<Nul, Nul, Neg(One)>> >>,
                     t |-> << <<T(cx[1], 1, n), T(cy[1], 1, n), Nul>>, <<T(cx[2], 1, n), T(cy[2], 1, n), Nul>>, <<Nul, Nul, One>> >>]
PredF2P2(x, o) == \* value that makes the factor agree: x + g o / |g|
    LET n == Gn(x.g) g == x.g
        re == <<T(g[1] * o.x[1], o.x[2], n * o.x[3]), T(-g[2] * o.y[1], o.y[2], n * o.y[3])>>
        im == <<T(g[1] * o.y[1], o.y[2], n * o.y[3]), T(g[2] * o.x[1], o.x[2], n * o.x[3])>>
    IN << Comp(<<T(x.x, 1, 1)>> \o re), Comp(<<T(x.y, 1, 1)>> \o im), Arg(Gm(x.g, o.g)) >>
(* odometry: rotate, advance, rotate *)
PredODO(x, o) == LET g == Gr(Gm(x.g, o.g1)) n == Gn(g) IN
    << Comp(<<T(x.x, 1, 1), T(o.d * g[1], 1, n)>>), Comp(<<T(x.y, 1, 1), T(o.d * g[2], 1, n)>>), Arg(Gm(g, o.g2)) >>
ResODO(x, y, o) == LET p == PredODO(x, o) IN
    << Comp(p[1].s \o <<T(-y.x, 1, 1)>>), Comp(p[2].s \o <<T(-y.y, 1, 1)>>), Arg(Gm(p[3].g, Gc(y.g))) >>
JacODO(x, o) == LET g == Gr(Gm(x.g, o.g1)) n == Gn(g) dg == Gm(<<0, 1>>, g) IN   \* d/dtheta of d*g/|g| is i d g/|g|
    [o |-> << <<One, Nul, T(o.d * dg[1], 1, n)>>, <<Nul, One, T(o.d * dg[2], 1, n)>>, <<Nul, Nul, One>> >>,
     t |-> << <<Neg(One), Nul, Nul>>, <<Nul, Neg(One), Nul>>, <<Nul, Nul, Neg(One)>> >>]
(* range and bearing *)
ResF1L2(x, l, o) == LET z == <<l.x - x.x, l.y - x.y>> q == Gn(z) IN
    IF q = 0 THEN <<Comp(<<>>), Comp(<<>>)>>
    ELSE << Comp(<<T(q, 1, q), Neg(o.r)>>), Arg(Gm(Gr(z), Gm(Gc(x.g), Gc(o.g)))) >>
(* d|z| = Re(conj(z) dz)/|z|,  d arg z = Im(conj(z) dz)/|z|^2 *)
JacF1L2(x, l) == LET z == <<l.x - x.x, l.y - x.y>> q == Gn(z) c == Gc(z)
                     e1 == Gm(c, <<1, 0>>) e2 == Gm(c, <<0, 1>>)
                 IN IF q = 0 THEN [o |-> << <<One, Nul, Nul>>, <<Nul, One, Nul>> >>, t |-> << <<One, Nul>>, <<Nul, One>> >>]
                    ELSE [o |-> << <<T(-e1[1], 1, q), T(-e2[1], 1, q), Nul>>, <<T(-e1[2], q, 1), T(-e2[2], q, 1), Neg(One)>> >>,
                          t |-> << <<T(e1[1], 1, q), T(e2[1], 1, q)>>, <<T(e1[2], q, 1), T(e2[2], q, 1)>> >>]
PredF1L2(x, o) == LET g == Gr(Gm(x.g, o.g)) n == Gn(g) IN
    << Comp(<<T(x.x, 1, 1), T(o.r[1] * g[1], o.r[2], n * o.r[3])>>), Comp(<<T(x.y, 1, 1), T(o.r[1] * g[2], o.r[2], n * o.r[3])>>) >>

(*************************** 3D ********************************************)
(* generators of se(3) as 4x4 matrices, [rotation, translation] order *)
E4(i, j) == TLCEval([r \in 1..4 |-> TLCEval([c \in 1..4 |-> IF r = i /\ c = j THEN 1 ELSE 0])])
GenM(k) == CASE k = 1 -> MSub(E4(3, 2), E4(2, 3)) [] k = 2 -> MSub(E4(1, 3), E4(3, 1)) [] k = 3 -> MSub(E4(2, 1), E4(1, 2))
             [] OTHER -> E4(k - 3, 4)
GM == TLCEval([k \in 1..6 |-> QM(GenM(k), 1)])
QIdent(n) == QM(Ident(n), 1)
Hom(p, w) == <<Rat(p[1], w), Rat(p[2], w), Rat(p[3], w), ROne>>
QMT(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
Col(M, n) == n
(* matrix whose k-th column is f[k] *)
Columns(f, rows) == TLCEval([i \in 1..rows |-> TLCEval([k \in 1..Len(f) |-> f[k][i]])])

RelF2P3(x, y, o, rev) == IF rev THEN TMul(TMul(y, TInv(o)), TInv(x)) ELSE TMul(TMul(x, o), TInv(y))
JacF2P3(x, y, o, rev) == LET Tr == RelF2P3(x, y, o, rev) IN     \* first node of the order, second node of the order
    [o |-> QIdent(6), t |-> QMScale(RInt(-1), TAdj(Tr))]
ResF1L3(x, l, o) == LET p == TAct(TInv(x), l.p, l.w) IN QVSub(QV(p.p, p.w), QV(o.p, o.w))
JacF1L3(x, l) == LET Ti == THom(TInv(x)) h == Hom(l.p, l.w)
                     f == TLCEval([k \in 1..6 |-> QVNeg(QMVec(Ti, QMVec(GM[k], h)))])     \* (Exp(x)T)^-1 l = T^-1 (I - x^) l
                 IN [o |-> Columns(f, 3), t |-> TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> Ti[i][j]])])]
PlaneV(p) == <<Rat(p.n[1], p.m), Rat(p.n[2], p.m), Rat(p.n[3], p.m), Rat(p.d, p.e)>>
LocalPlane(x, p) == QMVec(QMT(THom(x)), PlaneV(p))
ResF1PL(x, p, o) == LET l == LocalPlane(x, p) IN IF l[4][1] < 0 THEN QVAdd(l, PlaneV(o)) ELSE QVSub(l, PlaneV(o))
JacF1PL(x, p) == LET Tt == QMT(THom(x))
                     f == TLCEval([k \in 1..6 |-> QMVec(Tt, QMVec(QMT(GM[k]), PlaneV(p)))])  \* (Exp(x)T)' pi
                 IN [o |-> Columns(f, 4), t |-> Tt]
NormalV(o) == <<Rat(o.n[1], o.m), Rat(o.n[2], o.m), Rat(o.n[3], o.m)>>
ResPT(x, o) == LET p == TPoint(x, o.x, 1) IN << QDot(NormalV(o), QVSub(p, QV(o.y, 1))) >>
JacPT(x, o) == LET h == QMVec(THom(x), Hom(o.x, 1))
                   f == TLCEval([k \in 1..6 |-> << QDot(NormalV(o), SubSeq(QMVec(GM[k], h), 1, 3)) >>])
               IN [o |-> Columns(f, 1), t |-> <<>>]

(*************************** the factor ************************************)
(* residual: [ln |-> symbolic logarithm] or [c |-> components] or [q |-> rationals]; a derived node agrees with the observation *)
ZeroRes == [z |-> TRUE]
Residual(f, x, y) ==
    IF "derived" \in DOMAIN y /\ f.kind \in Kind2D THEN ZeroRes
    ELSE CASE f.kind = "F1P2" -> [c |-> ResF1P2(x, f.obs)]
      [] f.kind = "F2P2" -> [c |-> ResF2P2(x, y, f.obs)]
      [] f.kind = "ODO"  -> [c |-> ResODO(x, y, f.obs)]
      [] f.kind = "F1L2" -> [c |-> ResF1L2(x, y, f.obs)]
      [] f.kind \in {"F1P3", "F1P3s"} -> [ln |-> TLn(TMul(x, TInv(f.obs)))]
      [] f.kind \in {"F2P3", "F2P3s"} -> [ln |-> TLn(RelF2P3(x, y, f.obs, f.rev))]
      [] f.kind = "F1L3" -> [q |-> ResF1L3(x, y, f.obs)]
      [] f.kind = "F1PL" -> [q |-> ResF1PL(x, y, f.obs)]
      [] f.kind = "PT2PL" -> [q |-> ResPT(x, f.obs)]
(* blocks in the order [origin or pose, target or landmark]; F2P3 in the order of the node ids *)
Jacobian(f, x, y) ==
    IF "derived" \in DOMAIN y /\ f.kind \in Kind2D /\ f.kind # "ODO" THEN [none |-> TRUE]
    ELSE CASE f.kind = "F1P2" -> [s |-> [o |-> JacF1P2, t |-> <<>>]]
      [] f.kind = "F2P2" -> [s |-> JacF2P2(x, y)]
      [] f.kind = "ODO"  -> [s |-> JacODO(x, f.obs)]
      [] f.kind = "F1L2" -> [s |-> JacF1L2(x, y)]
      [] f.kind \in {"F1P3", "F1P3s"} -> [q |-> [o |-> QIdent(6), t |-> <<>>]]
      [] f.kind \in {"F2P3", "F2P3s"} -> [q |-> JacF2P3(x, y, f.obs, f.rev)]
      [] f.kind = "F1L3" -> [q |-> JacF1L3(x, y)]
      [] f.kind = "F1PL" -> [q |-> JacF1PL(x, y)]
      [] f.kind = "PT2PL" -> [q |-> JacPT(x, f.obs)]
CanInit(k) == k \in {"F2P2", "ODO", "F1L2", "F2P3", "F2P3s", "F1L3"}
(* the value given to the target when initialisation is requested *)
InitTarget(k, x, o) ==
    CASE k = "F2P2" -> [derived |-> PredF2P2(x, o)]
      [] k = "ODO"  -> [derived |-> PredODO(x, o)]
      [] k = "F1L2" -> [derived |-> PredF1L2(x, o)]
      [] k \in {"F2P3", "F2P3s"} -> TMul(x, o)
      [] k = "F1L3" -> LET p == TAct(x, o.p, o.w) g0 == GcdSeq(<<p.w, p.p[1], p.p[2], p.p[3]>>, 1, 0) IN
                       [p |-> TLCEval([i \in 1..3 |-> p.p[i] \div g0]), w |-> p.w \div g0]
(* the observation the nodes agree with *)
MatchObs(k, x, y) ==
    CASE k = "F1P2" -> [x |-> T(x.x, 1, 1), y |-> T(x.y, 1, 1), g |-> x.g, k |-> 0]
      [] k = "F2P2" -> LET l == Local(x, y) n == Gn(x.g) IN [x |-> T(l[1], 1, n), y |-> T(l[2], 1, n), g |-> Gr(Gm(y.g, Gc(x.g))), k |-> 1]
      [] k = "F1L2" -> LET z == <<y.x - x.x, y.y - x.y>> IN IF z = <<0, 0>> THEN OL2s[1] ELSE [r |-> T(Gn(z), 1, Gn(z)), g |-> Gr(Gm(z, Gc(x.g))), k |-> 0]
      [] k \in {"F1P3", "F1P3s"} -> x
      [] k \in {"F2P3", "F2P3s"} -> TMul(TInv(x), y)
      [] k = "F1L3" -> TAct(TInv(x), y.p, y.w)

SeqSet(s) == {s[i] : i \in 1..Len(s)}
As(k) == IF k \in Kind2D THEN SeqSet(P2s) ELSE SeqSet(P3s)
Bs(k) == CASE k \in {"F2P2", "ODO"} -> SeqSet(P2s) [] k = "F1L2" -> SeqSet(L2s) [] k \in {"F2P3", "F2P3s"} -> SeqSet(P3s)
           [] k = "F1L3" -> SeqSet(L3s) [] k = "F1PL" -> SeqSet(PLs) [] OTHER -> {[unused |-> 0]}
Os(k) == CASE k \in {"F1P2", "F2P2"} -> SeqSet(O2s) [] k = "ODO" -> SeqSet(ODOs) [] k = "F1L2" -> SeqSet(OL2s)
           [] k \in {"F1P3", "F1P3s", "F2P3", "F2P3s"} -> SeqSet(P3s) [] k = "F1L3" -> SeqSet(L3s)
           [] k = "F1PL" -> SeqSet(PLs) [] k = "PT2PL" -> SeqSet(Pts)
CanMatch(k) == k \in {"F1P2", "F2P2", "F1L2", "F1P3", "F1P3s", "F2P3", "F2P3s", "F1L3"}
(* exact zero crossings of the local plane distance are not decided by floating point *)
(* bounds that keep the exact arithmetic within 32 bits *)
Fit2(x, o) == QNorm2(x.q) * QNorm2(o.q) <= 1500 /\ x.w * o.w <= 16
Fit3(x, y, o) == /\ QNorm2(x.q) <= 300 /\ QNorm2(y.q) <= 300 /\ QNorm2(o.q) <= 1500 /\ x.w <= 64 /\ y.w <= 64 /\ o.w <= 64
                 /\ QNorm2(x.q) * QNorm2(y.q) <= 1500 /\ QNorm2(x.q) * QNorm2(y.q) * QNorm2(o.q) <= 1500 /\ x.w * y.w * o.w <= 16
Ok(k, x, y, o) == CASE k = "F1PL" -> LocalPlane(x, y)[4][1] # 0
                    [] k \in {"F1P3", "F1P3s"} -> Fit2(x, o)
                    [] k \in {"F2P3", "F2P3s"} -> Fit3(x, y, o)
                    [] k = "F1L3" -> x.w * y.w * o.w <= 4000
                    [] OTHER -> TRUE

Ch(S) == IF Sampling THEN {RandomElement(S)} ELSE S
Init == /\ fac = <<>> /\ a = NONE /\ b = NONE /\ rs = NONE /\ js = NONE /\ hist = <<>> /\ done = FALSE

Obsv(r2, j2) == [res |-> r2, jac |-> j2]
Log(rec) == hist' = TLCEval(Append(hist, rec))
Add == /\ fac = <<>>
       /\ \E k \in Ch(Kinds) : \E x \in Ch(As(k)), y \in Ch(Bs(k)), W \in Ch(1..Len(Infos)) :
          \E o \in Ch(Os(k)), m \in Ch(IF CanMatch(k) THEN {TRUE, FALSE} ELSE {FALSE}),
             rv \in Ch(IF k \in Unary \cup {"ODO"} THEN {FALSE} ELSE {TRUE, FALSE}),
             ini \in Ch(IF CanInit(k) THEN {TRUE, FALSE} ELSE {FALSE}),
             \* how the nodes came to their values: created with another one and moved (the auxiliary state stays behind),
             \* anchored or not, with a factor attached before or not
             past \in {[a |-> RandomElement(As(k)), b |-> RandomElement(Bs(k)), moved |-> RandomElement({0, 1, 2, 3}),
                       mode |-> RandomElement({0, 0, 1, 2, 3}), busy |-> RandomElement({0, 0, 1, 2, 3})]} :
          /\ LET ob == IF m THEN MatchObs(k, x, y) ELSE o
                 ny == TLCEval(IF ini THEN InitTarget(k, x, ob) ELSE y)
             IN /\ Ok(k, x, ny, ob)
                /\ fac' = [kind |-> k, obs |-> TLCEval(ob), rev |-> rv, init |-> ini]
                /\ a' = x /\ b' = ny
                /\ Log([op |-> "add", kind |-> k, a |-> x, b |-> y, obs |-> TLCEval(ob), rev |-> rv, init |-> ini, W |-> W, past |-> past, na |-> x, nb |-> ny])
       /\ UNCHANGED <<rs, js>>
(* residual, Jacobian and error, in this order as the solvers do *)
Eval == /\ fac # <<>> /\ rs' = TLCEval(Residual(fac, a, b)) /\ js' = TLCEval(Jacobian(fac, a, b))
        /\ Log([op |-> "eval", res |-> rs', jac |-> js']) /\ UNCHANGED <<fac, a, b>>
EvalRes == /\ fac # <<>> /\ js # NONE /\ rs' = TLCEval(Residual(fac, a, b))
           /\ Log([op |-> "res", res |-> rs', jac |-> js]) /\ UNCHANGED <<fac, a, b, js>>
SetA == /\ fac # <<>> /\ \E x \in Ch(As(fac.kind)) :
            IF Ok(fac.kind, x, b, fac.obs) THEN a' = x /\ Log([op |-> "setA", na |-> x, nb |-> b] @@ Obsv(rs, js)) ELSE UNCHANGED <<a, hist>>
        /\ UNCHANGED <<fac, b, rs, js>>
SetB == /\ fac # <<>> /\ fac.kind \notin Unary
        /\ \E y \in Ch(Bs(fac.kind)) :
            IF Ok(fac.kind, a, y, fac.obs) THEN b' = y /\ Log([op |-> "setB", na |-> a, nb |-> y] @@ Obsv(rs, js)) ELSE UNCHANGED <<b, hist>>
        /\ UNCHANGED <<fac, a, rs, js>>
(* a move by a tangent vector: only for values that stay exact *)
MoveA == /\ fac # <<>> /\ fac.kind \notin Kind2D
         /\ \E g \in Ch(SeqSet(Moves)) : LET x == TLCEval(TMul(g, a)) IN
              IF TSize(x) < 400 /\ Ok(fac.kind, x, b, fac.obs) THEN a' = x /\ Log([op |-> "moveA", g |-> g, na |-> x, nb |-> b] @@ Obsv(rs, js)) ELSE UNCHANGED <<a, hist>>
         /\ UNCHANGED <<fac, b, rs, js>>
(* a derived target answers a new origin with a residual we do not write down *)
Settled == IF b = NONE THEN FALSE ELSE IF fac.kind \in Kind2D THEN "derived" \notin DOMAIN b ELSE TRUE
MaxOps(f) == 7
Next == IF fac = <<>> THEN Add /\ UNCHANGED done
        ELSE /\ Len(hist) <= MaxOps(fac)
             /\ \/ Eval \/ EvalRes \/ (Settled /\ SetA) \/ SetB \/ (Settled /\ MoveA)
             /\ UNCHANGED done
Finish == /\ Len(hist) > 7 /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<fac, a, b, rs, js, hist>>
Pick(n) == RandomElement(1..n)
(* simulation: one random enabled action per step *)
SimNext == IF fac = <<>> THEN Add /\ UNCHANGED done
           ELSE IF Len(hist) > 7 THEN Finish
           ELSE /\ \E n \in {Pick(5)} :
                   CASE n = 1 -> Eval
                     [] n = 2 -> IF js # NONE THEN EvalRes ELSE Eval
                     [] n = 3 -> IF Settled THEN SetA ELSE Eval
                     [] n = 4 -> IF fac.kind \notin Unary THEN SetB ELSE Eval
                     [] n = 5 -> IF Settled /\ fac.kind \notin Kind2D THEN MoveA ELSE Eval
                /\ UNCHANGED done
SimSpec == Init /\ [][SimNext]_vars
(* exhaustive sweep: every combination of the catalogue, created then evaluated *)
SweepNext == \/ Add /\ UNCHANGED done
             \/ /\ Len(hist) = 1 /\ Eval /\ UNCHANGED done
SweepSpec == Init /\ [][SweepNext]_vars
EmitEval == Len(hist') = 2 => PrintT("@@" \o ToJson(hist'))
View == <<fac, a, b, Len(hist)>>

(*************************** properties ************************************)
IsZeroComp(c) == FALSE
TrIsId(f, x, y) == RelF2P3(x, y, f.obs, f.rev) = TId
(* the residual is zero exactly when the nodes agree with the observation *)
ZeroIffAgree == (fac # <<>> /\ a # NONE) =>
    CASE fac.kind \in {"F2P3", "F2P3s"} -> (RelF2P3(a, b, fac.obs, fac.rev) = TId) <=> (TMul(a, fac.obs) = b)
      [] fac.kind = "F1L3" -> (ResF1L3(a, b, fac.obs) = <<RZero, RZero, RZero>>) <=> (TPoint(a, fac.obs.p, fac.obs.w) = QV(b.p, b.w))
      [] OTHER -> TRUE
(* in the other creation order the error is the inverse one: same meaning, same size *)
OrderFree == (fac # <<>> /\ a # NONE /\ fac.kind \in {"F2P3", "F2P3s"}) =>
    RelF2P3(a, b, fac.obs, FALSE) = TInv(RelF2P3(a, b, fac.obs, TRUE))
(* an initialised target agrees *)
InitAgrees == (fac # <<>> /\ Len(hist) = 1 /\ fac.init) =>
    CASE fac.kind \in {"F2P3", "F2P3s"} -> RelF2P3(a, b, fac.obs, fac.rev) = TId
      [] fac.kind = "F1L3" -> ResF1L3(a, b, fac.obs) = <<RZero, RZero, RZero>>
      [] OTHER -> TRUE
=============================================================================
