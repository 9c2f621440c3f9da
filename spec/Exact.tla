------------------------------- MODULE Exact -------------------------------
(***************************************************************************)
(* Exact arithmetic used by all models of mrob: rationals, integer and     *)
(* rational matrices, rotations as reduced integer quaternions, rigid      *)
(* transformations with rational translation, and planar directions as     *)
(* Gaussian integers.  Everything is integer arithmetic.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(Abs(b), a % Abs(b))

GcdSeq(s, i, acc) == FoldLeft(LAMBDA x, y : IF x = 1 THEN 1 ELSE Gcd(x, y), acc, s)

SumTo(f, n) == FoldLeft(LAMBDA x, y : x + y, 0, f)      \* f is a sequence of length n
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxAbs(s) == FoldLeft(LAMBDA x, y : IF Abs(y) > x THEN Abs(y) ELSE x, 0, s)

(* exact integer square root test: the root, or -1 *)
RECURSIVE RootFrom(_, _)
RootFrom(n, r) == IF r * r > n THEN -1 ELSE IF r * r = n THEN r ELSE RootFrom(n, r + 1)
Root(n) == RootFrom(n, 0)

(*************************** rationals *************************************)
(* <<n, d>> with d > 0 and gcd 1 *)
Rat(n, d) == IF n = 0 THEN <<0, 1>>
             ELSE LET g == Gcd(n, d) s == IF d < 0 THEN -1 ELSE 1
                  IN  <<(s * n) \div g, (s * d) \div g>>
RInt(n) == <<n, 1>>
RAdd(a, b) == IF a[2] = b[2] THEN Rat(a[1] + b[1], a[2])
              ELSE LET g == Gcd(a[2], b[2]) IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(a[1], b[2]) h == Gcd(b[1], a[2])
                  gg == IF g = 0 THEN 1 ELSE g
                  hh == IF h = 0 THEN 1 ELSE h
              IN Rat((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RZero == <<0, 1>>
ROne == <<1, 1>>

RSumTo(f, n) == FoldLeft(LAMBDA x, y : RAdd(x, y), RZero, f)
RSum(s) == RSumTo(s, Len(s))

(*************************** integer matrices ******************************)
(* a matrix is a sequence of rows *)
Rows(A) == Len(A)
Cols(A) == Len(A[1])
MMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |-> SumTo(TLCEval([k \in 1..Len(B) |-> A[i][k] * B[k][j]]), Len(B))])])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> A[i][j] + B[i][j]])])
MSub(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> A[i][j] - B[i][j]])])
MScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> c * A[i][j]])])
MT(A) == TLCEval([j \in 1..Len(A[1]) |-> TLCEval([i \in 1..Len(A) |-> A[i][j]])])
MVec(A, v) == TLCEval([i \in 1..Len(A) |-> SumTo(TLCEval([k \in 1..Len(v) |-> A[i][k] * v[k]]), Len(v))])
Ident(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN 1 ELSE 0])])
ZeroM(n, m) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> 0])])
Block(A, r, c, n, m) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> A[r + i - 1][c + j - 1]])])
Trace(A) == SumTo(TLCEval([i \in 1..Len(A) |-> A[i][i]]), Len(A))
Diag(v) == TLCEval([i \in 1..Len(v) |-> TLCEval([j \in 1..Len(v) |-> IF i = j THEN v[i] ELSE 0])])
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] + v[i]])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> u[i] - v[i]])
VScale(c, v) == TLCEval([i \in 1..Len(v) |-> c * v[i]])
Dot(u, v) == SumTo(TLCEval([i \in 1..Len(u) |-> u[i] * v[i]]), Len(u))
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Hat(w) == << <<0, -w[3], w[2]>>, <<w[3], 0, -w[1]>>, <<-w[2], w[1], 0>> >>

(*************************** rational matrices *****************************)
QMMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |-> RSumTo(TLCEval([k \in 1..Len(B) |-> RMul(A[i][k], B[k][j])]), Len(B))])])
QMAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> RAdd(A[i][j], B[i][j])])])
QMScale(c, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> RMul(c, A[i][j])])])
QMVec(A, v) == TLCEval([i \in 1..Len(A) |-> RSumTo(TLCEval([k \in 1..Len(v) |-> RMul(A[i][k], v[k])]), Len(v))])
QM(A, d) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> Rat(A[i][j], d)])])  \* integer matrix over d
QV(v, d) == TLCEval([i \in 1..Len(v) |-> Rat(v[i], d)])
QVAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
QVSub(u, v) == TLCEval([i \in 1..Len(u) |-> RSub(u[i], v[i])])
QVNeg(u) == TLCEval([i \in 1..Len(u) |-> RNeg(u[i])])
QDot(u, v) == RSumTo(TLCEval([i \in 1..Len(u) |-> RMul(u[i], v[i])]), Len(u))

(*************************** rotations *************************************)
(* a rotation is a non-zero integer quaternion <<a,b,c,d>> (a scalar),     *)
(* reduced by its gcd, the first non-zero component positive.              *)
QReduce(q) == LET g == GcdSeq(q, 1, 0)
                  r == TLCEval([i \in 1..4 |-> q[i] \div g])
                  f == CHOOSE i \in 1..4 : r[i] # 0 /\ \A j \in 1..(i - 1) : r[j] = 0
              IN IF r[f] < 0 THEN TLCEval([i \in 1..4 |-> -r[i]]) ELSE r
QMul(p, q) == QReduce(<< p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
                         p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                         p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
                         p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>)
QInv(q) == QReduce(<<q[1], -q[2], -q[3], -q[4]>>)
QId == <<1, 0, 0, 0>>
QNorm2(q) == q[1]*q[1] + q[2]*q[2] + q[3]*q[3] + q[4]*q[4]
(* the rotation matrix is RotN(q) / QNorm2(q) *)
RotN(q) == LET a == q[1] b == q[2] c == q[3] d == q[4] IN
    << << a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c) >>,
       << 2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b) >>,
       << 2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d >> >>
RotQ(q) == QM(RotN(q), QNorm2(q))
ApplyRot(q, v) == LET R == RotQ(q) IN TLCEval([i \in 1..3 |-> RSumTo(TLCEval([j \in 1..3 |-> RMul(R[i][j], v[j])]), 3)])

(*************************** rigid transformations *************************)
(* [q |-> quaternion, t |-> <<x,y,z>>, w |-> common denominator > 0]       *)
TReduce(q, t, w) == LET g == GcdSeq(<<w, t[1], t[2], t[3]>>, 1, 0)
                    IN [q |-> q, t |-> TLCEval([i \in 1..3 |-> t[i] \div g]), w |-> w \div g]
TMake(q, t, w) == TReduce(QReduce(q), t, w)
TId == [q |-> QId, t |-> <<0, 0, 0>>, w |-> 1]
(* t1/w1 + N1 t2 / (n1 w2) over the least common denominator *)
TAct(A, p, pw) == LET n == QNorm2(A.q)
                      r == MVec(RotN(A.q), p)
                      g0 == GcdSeq(<<n * pw, r[1], r[2], r[3]>>, 1, 0)
                      g == IF g0 = 0 THEN 1 ELSE g0
                      rd == (n * pw) \div g
                      h == Gcd(A.w, rd)
                      den == (A.w \div h) * rd
                  IN [p |-> TLCEval([i \in 1..3 |-> A.t[i] * (rd \div h) + (r[i] \div g) * (A.w \div h)]), w |-> den]
TMul(A, B) == LET x == TAct(A, B.t, B.w) IN TReduce(QMul(A.q, B.q), x.p, x.w)
TInv(A) == LET qi == QInv(A.q)
               x == TAct([q |-> qi, t |-> <<0,0,0>>, w |-> 1], A.t, A.w)
           IN TReduce(qi, TLCEval([i \in 1..3 |-> -x.p[i]]), x.w)
TTrans(A) == QV(A.t, A.w)
(* the image of a rational point, as rationals *)
TPoint(A, p, pw) == LET x == TAct(A, p, pw) IN QV(x.p, x.w)
(* homogeneous matrix, rational *)
THom(A) == LET R == RotQ(A.q) t == TTrans(A) IN
    << <<R[1][1], R[1][2], R[1][3], t[1]>>, <<R[2][1], R[2][2], R[2][3], t[2]>>,
       <<R[3][1], R[3][2], R[3][3], t[3]>>, <<RZero, RZero, RZero, ROne>> >>
(* adjoint in the [rotation, translation] convention: [R 0; t^R R] *)
QHat(t) == << <<RZero, RNeg(t[3]), t[2]>>, <<t[3], RZero, RNeg(t[1])>>, <<RNeg(t[2]), t[1], RZero>> >>
TAdj(A) == LET R == RotQ(A.q) X == QMMul(QHat(TTrans(A)), R) IN
    TLCEval([i \in 1..6 |-> TLCEval([j \in 1..6 |->
        IF i <= 3 THEN IF j <= 3 THEN R[i][j] ELSE RZero
        ELSE IF j <= 3 THEN X[i - 3][j] ELSE R[i - 3][j - 3]])])
TSize(A) == Max2(QNorm2(A.q), Max2(A.w, MaxAbs(A.t)))
(***************************************************************************)
(* Symbolic logarithm of A.  With axis u = v/|v|, angle th of the reduced  *)
(* quaternion (a, v), a >= 0:  rotation part th*u and translation part     *)
(*    t - (th/2) u x t + (1 - (th/2) cot(th/2)) u x (u x t)                *)
(* The record carries the exact vectors; only th and |v| are evaluated     *)
(* numerically.                                                            *)
(***************************************************************************)
TLn(A) == LET v == <<A.q[2], A.q[3], A.q[4]>> IN
    [a |-> A.q[1], v |-> v, t |-> A.t, vt |-> Cross(v, A.t), vvt |-> Cross(v, Cross(v, A.t)), w |-> A.w]

(*************************** planar directions *****************************)
(* a heading is a Gaussian integer <<x, y>>, reduced by gcd, whose modulus *)
(* is an integer, so its cosine and sine are rational                      *)
GReduce(g) == LET k == Gcd(g[1], g[2]) IN <<g[1] \div k, g[2] \div k>>
GMul(a, b) == GReduce(<<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>)
GInv(a) == <<a[1], -a[2]>>
GId == <<1, 0>>
GMod(a) == Root(a[1]*a[1] + a[2]*a[2])
GCos(a) == Rat(a[1], GMod(a))
GSin(a) == Rat(a[2], GMod(a))
=============================================================================
