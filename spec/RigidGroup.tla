----------------------------- MODULE RigidGroup -----------------------------
(***************************************************************************)
(* A register machine over rigid transformations (mrob SE3 / SO3).         *)
(* Registers hold exact group elements; every action is one public call.   *)
(* `hist` records the calls with the expected observable results and is    *)
(* hidden from the state by the VIEW.                                      *)
(***************************************************************************)
EXTENDS Exact, TLC, Json, Randomization

CONSTANTS NReg,      \* number of registers
          MaxLen,    \* length of the generated behaviours
          MaxSize,   \* bound on the size of the exact representation
          Gens,      \* sequence of generators (elements)
          Points,    \* sequence of integer points
          OpSet,     \* names of the enabled operations
          Sampling   \* TRUE in simulation: arguments are drawn at random instead of enumerated

VARIABLES reg, hist, done
vars == <<reg, hist, done>>

ASSUME \A g \in 1..Len(Gens) : Gens[g] = TMake(Gens[g].q, Gens[g].t, Gens[g].w)

Reg == 1..NReg
Small(A) == TSize(A) <= MaxSize

Init == /\ reg = [r \in Reg |-> TId]
        /\ hist = <<>>
        /\ done = FALSE

Log(rec) == hist' = TLCEval(Append(hist, rec))

(* every element is valid: the canonical form itself guarantees it, the matrix form must be orthogonal *)
Put(k, A, rec) == IF Small(A)
                  THEN /\ reg' = TLCEval([reg EXCEPT ![k] = A])
                       /\ Log(rec @@ [k |-> k, res |-> A])
                  ELSE Sampling /\ UNCHANGED <<reg, hist>>

Load(k, g)    == Put(k, Gens[g], [op |-> "load"])
LoadExp(k, g) == Put(k, Gens[g], [op |-> "exp"])            \* built from its logarithm
LoadRt(k, g)  == Put(k, Gens[g], [op |-> "Rt"])             \* built from rotation and translation
Mul(i, j, k)  == Put(k, TMul(reg[i], reg[j]), [op |-> "mul", i |-> i, j |-> j])
Star(i, j, k) == Put(k, TMul(reg[i], reg[j]), [op |-> "star", i |-> i, j |-> j])
Inv(i, k)     == Put(k, TInv(reg[i]), [op |-> "inv", i |-> i])
Copy(i, k)    == Put(k, reg[i], [op |-> "copy", i |-> i])
Assign(i, k)  == Put(k, reg[i], [op |-> "assign", i |-> i])
Regen(k)      == Put(k, reg[k], [op |-> "regen"])           \* Exp(Ln(.))
UpdL(k, g)    == Put(k, TMul(Gens[g], reg[k]), [op |-> "updl", g |-> Gens[g]])
UpdR(k, g)    == Put(k, TMul(reg[k], Gens[g]), [op |-> "updr", g |-> Gens[g]])
Upd(k, g)     == Put(k, TMul(Gens[g], reg[k]), [op |-> "upd", g |-> Gens[g]])

(* observations: registers unchanged *)
Obs(rec) == UNCHANGED reg /\ Log(rec)
Transform(i, p) == Obs([op |-> "point", i |-> i, p |-> Points[p], val |-> TPoint(reg[i], Points[p], 1)])
TransformAll(i) == Obs([op |-> "points", i |-> i, p |-> Points,
                        val |-> TLCEval([n \in 1..Len(Points) |-> TPoint(reg[i], Points[n], 1)])])
Read(i)  == Obs([op |-> "read", i |-> i, val |-> THom(reg[i])])
Adj(i)   == Obs([op |-> "adj", i |-> i, val |-> TAdj(reg[i])])
Ln(i)    == Obs([op |-> "ln", i |-> i, val |-> TLn(reg[i])])
Dist(i, j) == LET b == TInv(reg[j]) IN
              IF ~Small(b) THEN Sampling /\ UNCHANGED <<reg, hist>>
              ELSE LET d == TMul(reg[i], b) IN
                   Obs([op |-> "dist", i |-> i, j |-> j, val |-> [a |-> d.q[1], v |-> <<d.q[2], d.q[3], d.q[4]>>, t |-> d.t, w |-> d.w],
                        dt |-> TLCEval([n \in 1..3 |-> RSub(TTrans(reg[i])[n], TTrans(reg[j])[n])])])
Quat(i)  == Obs([op |-> "quat", i |-> i, val |-> reg[i].q])
Valid(i) == Obs([op |-> "valid", i |-> i])

Ch(S) == IF Sampling THEN {RandomElement(S)} ELSE S
GenSet == 1..Len(Gens)
Do(o) ==
  CASE o = "load" -> \E k \in Ch(Reg), g \in Ch(GenSet) : Load(k, g)
    [] o = "exp"  -> \E k \in Ch(Reg), g \in Ch(GenSet) : LoadExp(k, g)
    [] o = "Rt"   -> \E k \in Ch(Reg), g \in Ch(GenSet) : LoadRt(k, g)
    [] o = "updl" -> \E k \in Ch(Reg), g \in Ch(GenSet) : UpdL(k, g)
    [] o = "updr" -> \E k \in Ch(Reg), g \in Ch(GenSet) : UpdR(k, g)
    [] o = "upd"  -> \E k \in Ch(Reg), g \in Ch(GenSet) : Upd(k, g)
    [] o = "mul"  -> \E i \in Ch(Reg), j \in Ch(Reg), k \in Ch(Reg) : Mul(i, j, k)
    [] o = "star" -> \E i \in Ch(Reg), j \in Ch(Reg), k \in Ch(Reg) : Star(i, j, k)
    [] o = "inv"  -> \E i \in Ch(Reg), k \in Ch(Reg) : Inv(i, k)
    [] o = "copy" -> \E i \in Ch(Reg), k \in Ch(Reg) : Copy(i, k)
    [] o = "assign" -> \E i \in Ch(Reg), k \in Ch(Reg) : Assign(i, k)
    [] o = "regen" -> \E k \in Ch(Reg) : Regen(k)
    [] o = "read" -> \E i \in Ch(Reg) : Read(i)
    [] o = "adj"  -> \E i \in Ch(Reg) : Adj(i)
    [] o = "ln"   -> \E i \in Ch(Reg) : Ln(i)
    [] o = "quat" -> \E i \in Ch(Reg) : Quat(i)
    [] o = "valid" -> \E i \in Ch(Reg) : Valid(i)
    [] o = "points" -> \E i \in Ch(Reg) : TransformAll(i)
    [] o = "point" -> \E i \in Ch(Reg), p \in Ch(1..Len(Points)) : Transform(i, p)
    [] o = "dist" -> \E i \in Ch(Reg), j \in Ch(Reg) : Dist(i, j)
NextOps == \E o \in Ch(OpSet) : Do(o)

Next == Len(hist) < MaxLen /\ NextOps /\ UNCHANGED done
(* simulation: a behaviour is printed once, when complete *)
Finish == /\ Len(hist) = MaxLen /\ ~done
          /\ PrintT("@@" \o ToJson(hist))
          /\ done' = TRUE /\ UNCHANGED <<reg, hist>>
SimNext == Next \/ Finish
SimSpec == Init /\ [][SimNext]_vars
Spec == Init /\ [][Next]_vars

(* sweep of the catalogue: every element is loaded, then built from its logarithm, observed each time *)
CatNext == /\ ~done /\ done' = TRUE /\ UNCHANGED reg
           /\ \E g \in GenSet :
                 LET A == Gens[g]
                     h == << [op |-> "load", k |-> 1, res |-> A], [op |-> "ln", i |-> 1, val |-> TLn(A)],
                             [op |-> "quat", i |-> 1, val |-> A.q], [op |-> "valid", i |-> 1],
                             [op |-> "exp", k |-> 2, res |-> A], [op |-> "ln", i |-> 2, val |-> TLn(A)],
                             [op |-> "regen", k |-> 2, res |-> A], [op |-> "regen", k |-> 1, res |-> A] >>
                 IN hist' = <<g>> /\ PrintT("@@" \o ToJson(h))
CatalogueSpec == Init /\ [][CatNext]_vars

(*************************** properties ************************************)
Orthogonal(q) == MMul(RotN(q), MT(RotN(q))) = MScale(QNorm2(q) * QNorm2(q), Ident(3))
TypeOK == \A r \in Reg : reg[r].q = QReduce(reg[r].q) /\ reg[r].w > 0 /\ Orthogonal(reg[r].q)
InverseLaw == \A i \in Reg : TMul(reg[i], TInv(reg[i])) = TId /\ TMul(TInv(reg[i]), reg[i]) = TId
NeutralLaw == \A i \in Reg : TMul(reg[i], TId) = reg[i] /\ TMul(TId, reg[i]) = reg[i]
AssocLaw == \A i, j, k \in Reg : TMul(TMul(reg[i], reg[j]), reg[k]) = TMul(reg[i], TMul(reg[j], reg[k]))
ActionLaw == \A i, j \in Reg : LET p == TAct(reg[j], Points[1], 1) IN
                TPoint(TMul(reg[i], reg[j]), Points[1], 1) = TPoint(reg[i], p.p, p.w)
HomLaw == \A i, j \in Reg : QMMul(THom(reg[i]), THom(reg[j])) = THom(TMul(reg[i], reg[j]))
AdjLaw == \A i, j \in Reg : QMMul(TAdj(reg[i]), TAdj(reg[j])) = TAdj(TMul(reg[i], reg[j]))

(*************************** emission **************************************)
View == reg
(* exhaustive runs: one behaviour per transition *)
EmitEach == PrintT("@@" \o ToJson(hist'))
=============================================================================
