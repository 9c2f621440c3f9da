---------------------------- MODULE Conversions ----------------------------
(***************************************************************************)
(* Conversions to rotations and validity predicates of mrob geometry.       *)
(* Every initial choice is a case; its expected value is computed exactly.  *)
(***************************************************************************)
EXTENDS Exact, Json
CONSTANTS Kind,        \* which family of cases
          Headings,    \* Gaussian integers: exact angles
          Turns,       \* whole turns added to angles
          Quats,       \* rotations
          Vecs,        \* integer vectors
          Exps         \* exponents k of perturbations 10^-k
VARIABLES case
vars == <<case>>

(*************************** roll pitch yaw ********************************)
Rx(h) == LET c == GCos(h) s == GSin(h) IN << <<ROne, RZero, RZero>>, <<RZero, c, RNeg(s)>>, <<RZero, s, c>> >>
Ry(h) == LET c == GCos(h) s == GSin(h) IN << <<c, RZero, s>>, <<RZero, ROne, RZero>>, <<RNeg(s), RZero, c>> >>
Rz(h) == LET c == GCos(h) s == GSin(h) IN << <<c, RNeg(s), RZero>>, <<s, c, RZero>>, <<RZero, RZero, ROne>> >>
Rpy(a, b, c) == QMMul(QMMul(Rx(a), Ry(b)), Rz(c))
RpyCases == {[kind |-> "rpy", a |-> Headings[i], b |-> Headings[j], c |-> Headings[k], n |-> n,
              val |-> Rpy(Headings[i], Headings[j], Headings[k])]
             : i \in 1..Len(Headings), j \in 1..Len(Headings), k \in 1..Len(Headings), n \in Turns}

(*************************** hat, vee **************************************)
Hat6(w, v) == LET H == Hat(w) IN << <<H[1][1], H[1][2], H[1][3], v[1]>>, <<H[2][1], H[2][2], H[2][3], v[2]>>,
                                   <<H[3][1], H[3][2], H[3][3], v[3]>>, <<0, 0, 0, 0>> >>
Curly(w, v) == LET W == Hat(w) V == Hat(v) IN
   TLCEval([i \in 1..6 |-> TLCEval([j \in 1..6 |-> IF i <= 3 THEN IF j <= 3 THEN W[i][j] ELSE 0
                                            ELSE IF j <= 3 THEN V[i - 3][j] ELSE W[i - 3][j - 3]])])
HatCases == {[kind |-> "hat", w |-> Vecs[i], v |-> Vecs[j], hat |-> Hat(Vecs[i]), cross |-> Cross(Vecs[i], Vecs[j]),
              hat6 |-> Hat6(Vecs[i], Vecs[j]), curly |-> Curly(Vecs[i], Vecs[j])]
             : i \in 1..Len(Vecs), j \in 1..Len(Vecs)}
HatLaw(c) == c.kind = "hat" => MVec(c.hat, c.v) = c.cross

(*************************** validity **************************************)
(* modifications of a rotation matrix N/n by integer matrices L (left) and D (right) over a denominator *)
Det3(M) == M[1][1]*(M[2][2]*M[3][3] - M[2][3]*M[3][2]) - M[1][2]*(M[2][1]*M[3][3] - M[2][3]*M[3][1])
           + M[1][3]*(M[2][1]*M[3][2] - M[2][2]*M[3][1])
Mods == << [D |-> Ident(3), d |-> 1],                                   \* the rotation itself
           [D |-> Diag(<<-1, 1, 1>>), d |-> 1],                         \* reflections
           [D |-> Diag(<<1, -1, 1>>), d |-> 1],
           [D |-> Diag(<<-1, -1, -1>>), d |-> 1],
           [D |-> Diag(<<-1, -1, 1>>), d |-> 1],                        \* two flips: a rotation again
           [D |-> << <<0,1,0>>, <<1,0,0>>, <<0,0,1>> >>, d |-> 1],      \* columns swapped
           [D |-> << <<0,0,1>>, <<1,0,0>>, <<0,1,0>> >>, d |-> 1],      \* columns rotated: a rotation
           [D |-> Diag(<<4, 1, 2>>), d |-> 2],                          \* determinant one, not orthonormal
           [D |-> Diag(<<9, 6, 4>>), d |-> 6],                          \* 3/2 1 2/3
           [D |-> << <<1,1,0>>, <<0,1,0>>, <<0,0,1>> >>, d |-> 1],      \* shears
           [D |-> << <<1,0,0>>, <<0,1,0>>, <<0,7,1>> >>, d |-> 1],
           [D |-> << <<100,1,0>>, <<0,100,0>>, <<0,0,100>> >>, d |-> 100],
           [D |-> Diag(<<2, 2, 2>>), d |-> 1],                          \* scaled
           [D |-> Diag(<<101, 101, 101>>), d |-> 100],
           [D |-> Diag(<<99, 99, 99>>), d |-> 100],
           [D |-> Diag(<<-2, -2, -2>>), d |-> 1],
           [D |-> Diag(<<0, 0, 0>>), d |-> 1],                          \* singular
           [D |-> Diag(<<1, 1, 0>>), d |-> 1],
           [D |-> << <<1,1,0>>, <<0,0,0>>, <<0,0,1>> >>, d |-> 1] >>
(* exact verdict: M M^T = (n d)^2 I and det > 0 *)
IsRotation(M, m) == MMul(M, MT(M)) = MScale(m * m, Ident(3)) /\ Det3(M) > 0
Bottoms == << <<0,0,0,1>>, <<0,0,0,2>>, <<0,0,0,-1>>, <<0,0,0,0>>, <<1,0,0,1>>, <<0,-1,0,1>>, <<0,0,5,1>>, <<1,-1,0,1>>, <<-1,0,0,2>>, <<0,1,0,0>> >>
ModCases == {LET M == MMul(RotN(Quats[i]), Mods[m].D) den == QNorm2(Quats[i]) * Mods[m].d IN
             [kind |-> "mod", q |-> Quats[i], m |-> m, M |-> M, den |-> den, bottom |-> Bottoms[b], t |-> Vecs[1 + ((i + m) % Len(Vecs))],
              so3 |-> IsRotation(M, den), se3 |-> IsRotation(M, den) /\ Bottoms[b] = <<0,0,0,1>>]
             : i \in 1..Len(Quats), m \in 1..Len(Mods), b \in 1..Len(Bottoms)}
(* a perturbation of one entry (r, c) by +-10^-k: decided only well away from the documented tolerance 1e-6 *)
PertCases == {[kind |-> "pert", q |-> Quats[i], M |-> RotN(Quats[i]), den |-> QNorm2(Quats[i]), r |-> r, c |-> c, s |-> s, k |-> k,
               rot |-> r <= 3 /\ c <= 3, free |-> r <= 3 /\ c = 4,
               verdict |-> IF r <= 3 /\ c = 4 THEN "valid" ELSE IF k <= 4 THEN "invalid" ELSE IF k >= 8 THEN "valid" ELSE "any"]
              : i \in 1..Len(Quats), r \in 1..4, c \in 1..4, s \in {-1, 1}, k \in Exps}
(* not numbers *)
NanCases == {[kind |-> "nan", r |-> r, c |-> c, what |-> w, free |-> r <= 3 /\ c = 4]
             : r \in 1..4, c \in 1..4, w \in {"nan", "inf", "-inf"}}

Cases == CASE Kind = "rpy" -> RpyCases [] Kind = "hat" -> HatCases [] Kind = "mod" -> ModCases
           [] Kind = "pert" -> PertCases [] Kind = "nan" -> NanCases
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_vars
RpyLaw == case.kind = "rpy" => LET T == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> case.val[j][i]])])
                                IN QMMul(case.val, T) = QM(Ident(3), 1)
Hats == HatLaw(case)
Emit == PrintT("@@" \o ToJson(<<case>>))
=============================================================================
