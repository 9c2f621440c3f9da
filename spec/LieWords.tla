------------------------------ MODULE LieWords ------------------------------
(***************************************************************************)
(* Tangent vectors, exponentials and logarithms of SE3/SO3 off the lattice. *)
(* A register holds a word over one-parameter subgroups: the letter <<g,n>> *)
(* is Exp((n/2) x_g).  Two registers with the same normal form hold equal   *)
(* elements whatever sequence of exponentials, products, updates, adjoint   *)
(* transports, inversions or logarithms produced them.                      *)
(* The generator g = [ax, an, tr] names an axis (integer vector), an angle  *)
(* pi*p/q + s*10^-e given symbolically as <<p,q,s,e>>, and a translation.   *)
(***************************************************************************)
EXTENDS Exact, Json
CONSTANTS NReg, MaxLen, MaxWord, Axes, Angles, Trans, Powers, OpSet, Sampling
VARIABLES reg, hist, done
vars == <<reg, hist, done>>
Reg == 1..NReg
Gen == [ax : 1..Len(Axes), an : 1..Len(Angles), tr : 1..Len(Trans)]

(*************************** the free product ******************************)
(* append a letter to a reduced word *)
Push(w, l) == IF l[2] = 0 THEN w
              ELSE IF w = <<>> THEN <<l>>
              ELSE LET last == w[Len(w)] IN
                   IF last[1] = l[1]
                   THEN IF last[2] + l[2] = 0 THEN SubSeq(w, 1, Len(w) - 1)
                        ELSE Append(SubSeq(w, 1, Len(w) - 1), <<l[1], last[2] + l[2]>>)
                   ELSE Append(w, l)
RECURSIVE Cat(_, _)
Cat(u, v) == IF v = <<>> THEN u ELSE Cat(Push(u, v[1]), Tail(v))
WInv(w) == TLCEval([i \in 1..Len(w) |-> <<w[Len(w) + 1 - i][1], -w[Len(w) + 1 - i][2]>>])
Reduced(w) == /\ \A i \in 1..Len(w) : w[i][2] # 0
              /\ \A i \in 1..(Len(w) - 1) : w[i][1] # w[i + 1][1]

(*************************** principal angle *******************************)
(* the rotation angle of <<g,n>> is pi*P/Q + S/2*10^-e with P = n*p, Q = 2q, S = n*s.          *)
(* Principal: the number of full turns to remove, so that the angle falls in [-pi, pi];          *)
(* `half` when it is exactly half a turn (either axis orientation is then a logarithm).           *)
Floor(a, b) == a \div b                       \* TLA+ division rounds down
Principal(l) == LET A == Angles[l[1].an]
                    P == l[2] * A[1]
                    Q == 2 * A[2]
                    S == l[2] * A[3]
                    m0 == Floor(P + Q, 2 * Q)         \* P - 2Q m0 in [-Q, Q)
                    R0 == P - 2 * Q * m0
                    m == IF R0 = -Q /\ S < 0 THEN m0 - 1 ELSE m0
                    R == P - 2 * Q * m                \* now in [-Q, Q] and inside after adding the offset
                IN [turns |-> m, P |-> R, Q |-> Q, S |-> S, e |-> A[4], half |-> (R = -Q \/ R = Q) /\ S = 0]

Init == reg = [r \in Reg |-> <<>>] /\ hist = <<>> /\ done = FALSE
Log(rec) == hist' = TLCEval(Append(hist, rec))
Put(k, w, rec) == IF Len(w) <= MaxWord
                  THEN reg' = TLCEval([reg EXCEPT ![k] = w]) /\ Log(rec @@ [k |-> k, w |-> w])
                  ELSE Sampling /\ UNCHANGED <<reg, hist>>
Ch(S) == IF Sampling THEN {RandomElement(S)} ELSE S
(* reuse a generator that is already around half of the time, so that words collapse *)
GensIn == UNION {{reg[r][i][1] : i \in 1..Len(reg[r])} : r \in Reg}
ChGen == IF Sampling /\ GensIn # {} /\ RandomElement(1..2) = 1 THEN {RandomElement(GensIn)}
         ELSE IF Sampling THEN {[ax |-> RandomElement(1..Len(Axes)), an |-> RandomElement(1..Len(Angles)), tr |-> RandomElement(1..Len(Trans))]}
         ELSE Gen
Obs(rec) == UNCHANGED reg /\ Log(rec)

Exp(k, l)    == Put(k, Push(<<>>, l), [op |-> "exp", l |-> l])
Mul(i, j, k) == Put(k, Cat(reg[i], reg[j]), [op |-> "mul", i |-> i, j |-> j])
Inv(i, k)    == Put(k, WInv(reg[i]), [op |-> "inv", i |-> i])
UpdL(k, l)   == Put(k, Cat(Push(<<>>, l), reg[k]), [op |-> "updl", l |-> l])
Upd(k, l)    == Put(k, Cat(Push(<<>>, l), reg[k]), [op |-> "upd", l |-> l])
UpdR(k, l)   == Put(k, Push(reg[k], l), [op |-> "updr", l |-> l])
(* Exp(Adj(T) x) = T Exp(x) T^-1 *)
Conj(i, k, l) == Put(k, Cat(Push(reg[i], l), WInv(reg[i])), [op |-> "conj", i |-> i, l |-> l])
(* T Exp(x) built as Exp(Adj(T) x) T *)
Swap(i, k, l) == Put(k, Push(reg[i], l), [op |-> "swap", i |-> i, l |-> l])
Copy(i, k)   == Put(k, reg[i], [op |-> "copy", i |-> i])
Regen(k)     == Put(k, reg[k], [op |-> "regen"])
(* the mean of two elements on the geodesic: A Exp(1/2 Ln(A^-1 B)); known only on a common subgroup *)
Ln(i)        == Obs([op |-> "ln", i |-> i, single |-> Len(reg[i]) = 1] @@
                    (IF Len(reg[i]) = 1 THEN [pr |-> Principal(reg[i][1])] ELSE [pr |-> [turns |-> 0]]))
Dist(i, j)   == Obs([op |-> "dist", i |-> i, j |-> j, w |-> Cat(reg[i], WInv(reg[j]))])
Adj(i)       == Obs([op |-> "adj", i |-> i])
(* the action of an element on points: one at a time, arrays of several sizes, through the product and the inverse *)
Pts(i, j)    == Obs([op |-> "points", i |-> i, j |-> j, rows |-> RandomElement({0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 16, 17, 19, 64, 66, 257, 1003}), w |-> Cat(reg[i], reg[j]), v |-> WInv(reg[i])])

Do(o) ==
  CASE o = "exp"  -> \E k \in Ch(Reg), g \in ChGen, n \in Ch(Powers) : Exp(k, <<g, n>>)
    [] o = "mul"  -> \E i \in Ch(Reg), j \in Ch(Reg), k \in Ch(Reg) : Mul(i, j, k)
    [] o = "inv"  -> \E i \in Ch(Reg), k \in Ch(Reg) : Inv(i, k)
    [] o = "updl" -> \E k \in Ch(Reg), g \in ChGen, n \in Ch(Powers) : UpdL(k, <<g, n>>)
    [] o = "upd"  -> \E k \in Ch(Reg), g \in ChGen, n \in Ch(Powers) : Upd(k, <<g, n>>)
    [] o = "updr" -> \E k \in Ch(Reg), g \in ChGen, n \in Ch(Powers) : UpdR(k, <<g, n>>)
    [] o = "conj" -> \E i \in Ch(Reg), k \in Ch(Reg), g \in ChGen, n \in Ch(Powers) : Conj(i, k, <<g, n>>)
    [] o = "swap" -> \E i \in Ch(Reg), k \in Ch(Reg), g \in ChGen, n \in Ch(Powers) : Swap(i, k, <<g, n>>)
    [] o = "regen" -> \E k \in Ch(Reg) : Regen(k)
    [] o = "ln"   -> \E i \in Ch(Reg) : Ln(i)
    [] o = "dist" -> \E i \in Ch(Reg), j \in Ch(Reg) : Dist(i, j)
    [] o = "copy" -> \E i \in Ch(Reg), k \in Ch(Reg) : Copy(i, k)
    [] o = "points" -> \E i \in Ch(Reg), j \in Ch(Reg) : Pts(i, j)
    [] o = "adj"  -> \E i \in Ch(Reg) : Adj(i)
Next == Len(hist) < MaxLen /\ (\E o \in Ch(OpSet) : Do(o)) /\ UNCHANGED done
Finish == /\ Len(hist) = MaxLen /\ ~done /\ PrintT("@@" \o ToJson(hist))
          /\ done' = TRUE /\ UNCHANGED <<reg, hist>>
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Next \/ Finish]_vars

(* sweep of the catalogue: one exponential, then its logarithm *)
SweepNext == \/ /\ hist = <<>> /\ \E g \in Gen, n \in Powers : Exp(1, <<g, n>>)
                /\ UNCHANGED done
             \/ /\ Len(hist) = 1 /\ ~done /\ UNCHANGED <<reg, hist>>
                /\ PrintT("@@" \o ToJson(Append(hist, [op |-> "ln", i |-> 1, single |-> Len(reg[1]) = 1] @@
                    (IF Len(reg[1]) = 1 THEN [pr |-> Principal(reg[1][1])] ELSE [pr |-> [turns |-> 0]]))))
                /\ done' = TRUE
SweepSpec == Init /\ [][SweepNext]_vars

TypeOK == \A r \in Reg : Reduced(reg[r]) /\ Len(reg[r]) <= MaxWord
Laws == \A i, j \in Reg : /\ Cat(reg[i], WInv(reg[i])) = <<>>
                          /\ WInv(Cat(reg[i], reg[j])) = Cat(WInv(reg[j]), WInv(reg[i]))
                          /\ WInv(Cat(reg[i], WInv(reg[j]))) = Cat(reg[j], WInv(reg[i]))
PrincipalLaw == \A r \in Reg : \A i \in 1..Len(reg[r]) :
                   LET p == Principal(reg[r][i]) IN p.P <= p.Q /\ p.P >= -p.Q
View == reg
EmitEach == PrintT("@@" \o ToJson(hist'))
=============================================================================
