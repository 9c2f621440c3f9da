----------------------------- MODULE NodeStates -----------------------------
(***************************************************************************)
(* One node of the graph: its principal and its auxiliary state, with      *)
(* every operation of the node interface.  Values are exact points of the  *)
(* manifold of the node: planar poses with Gaussian headings, rational     *)
(* rigid poses, integer points, planes with rational unit normals.         *)
(***************************************************************************)
EXTENDS Exact, Json, Randomization
CONSTANTS Kinds,    \* subset of {"P2","P3","L2","L3","PL"}
          Vals,     \* Vals[k]: sequence of values
          Incs,     \* Incs[k]: sequence of increments (for PL: the value the plane is taken to, with a scale)
          MaxLen, MaxCoord, Sampling
VARIABLES kind, st, ax, hist, done
vars == <<kind, st, ax, hist, done>>

Ch(S) == IF Sampling THEN {RandomElement(S)} ELSE S
SeqSet(s) == {s[i] : i \in 1..Len(s)}

(* x (+) d *)
Plus(k, x, d) ==
  CASE k = "P2" -> [x |-> x.x + d.x, y |-> x.y + d.y, g |-> GReduce(<<x.g[1]*d.g[1] - x.g[2]*d.g[2], x.g[1]*d.g[2] + x.g[2]*d.g[1]>>)]
    [] k = "P3" -> TMul(d, x)                              \* left update by Exp of the logarithm of d
    [] k \in {"L2", "L3"} -> VAdd(x, d)
    [] k = "PL" -> [n |-> d.n, m |-> d.m, d |-> x.d + d.d]  \* increment (s n'/m' - n/m, dd): the normal becomes n'/m'
Fits(k, x) == CASE k = "P2" -> MaxAbs(x.g) <= 2000 /\ Abs(x.x) <= MaxCoord /\ Abs(x.y) <= MaxCoord
                [] k = "P3" -> TSize(x) <= 600
                [] k \in {"L2", "L3"} -> MaxAbs(x) <= MaxCoord
                [] OTHER -> Abs(x.d) <= MaxCoord
Log(rec) == hist' = TLCEval(Append(hist, rec @@ [st |-> st', ax |-> ax']))

Init == kind = "none" /\ st = <<>> /\ ax = <<>> /\ hist = <<>> /\ done = FALSE
Create == /\ kind = "none"
          /\ \E k \in Ch(Kinds) : \E v \in Ch(SeqSet(Vals[k])) : kind' = k /\ st' = v /\ ax' = v /\ Log([op |-> "new", k |-> k])
Update == \E d \in Ch(SeqSet(Incs[kind])) :
             LET x == TLCEval(Plus(kind, st, d)) IN
             IF Fits(kind, x) THEN st' = x /\ ax' = ax /\ Log([op |-> "upd", d |-> d, from |-> st]) ELSE UNCHANGED <<st, ax, hist>>
UpdateAux == \E d \in Ch(SeqSet(Incs[kind])) :
             LET x == TLCEval(Plus(kind, ax, d)) IN
             IF Fits(kind, x) THEN st' = x /\ ax' = ax /\ Log([op |-> "updaux", d |-> d, from |-> ax]) ELSE UNCHANGED <<st, ax, hist>>
Set    == \E v \in Ch(SeqSet(Vals[kind])) : st' = v /\ ax' = ax /\ Log([op |-> "set"])
SetAux == \E v \in Ch(SeqSet(Vals[kind])) : ax' = v /\ st' = st /\ Log([op |-> "setaux"])
Keep    == ax' = st /\ st' = st /\ Log([op |-> "keep"])
Restore == st' = ax /\ ax' = ax /\ Log([op |-> "restore"])
Step(n) == CASE n = 1 -> Update [] n = 2 -> UpdateAux [] n = 3 -> Set [] n = 4 -> SetAux [] n = 5 -> Keep [] n = 6 -> Restore
Next == IF kind = "none" THEN Create /\ UNCHANGED done
        ELSE Len(hist) < MaxLen /\ (\E n \in Ch(1..6) : Step(n)) /\ UNCHANGED <<kind, done>>
Finish == Len(hist) = MaxLen /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<kind, st, ax, hist>>
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Next \/ Finish]_vars
View == <<kind, st, ax>>
EmitEach == PrintT("@@" \o ToJson(hist'))

(* every value stays on its manifold *)
OnManifold(k, x) == CASE k = "P2" -> x.g # <<0, 0>>
                      [] k = "P3" -> MMul(RotN(x.q), MT(RotN(x.q))) = MScale(QNorm2(x.q) * QNorm2(x.q), Ident(3)) /\ x.w > 0
                      [] k = "PL" -> Dot(x.n, x.n) = x.m * x.m
                      [] OTHER -> TRUE
Manifold == kind # "none" => OnManifold(kind, st) /\ OnManifold(kind, ax)
(* the two registers are independent: only keep/restore/update-from-auxiliary let one depend on the other *)
Independent == [][kind # "none" => (st' # st => ax' = ax) /\ (ax' # ax => st' = st)]_<<st, ax>>
=============================================================================
