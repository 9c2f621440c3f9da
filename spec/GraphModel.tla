----------------------------- MODULE GraphModel -----------------------------
(***************************************************************************)
(* The factor graph and its solver, structurally exact.                    *)
(* Node states are symbolic: `ver[n]` counts the changes of node n, and a  *)
(* factor remembers the versions at which it was last evaluated.  The      *)
(* specification fixes ids, neighbour lists, dimensions, the layout of the *)
(* linear system (rows of every factor, columns of every non-anchor node,  *)
(* blocks of the Jacobians that enter it), which states a solve may move   *)
(* and which values an error query reports.  The adapter evaluates the     *)
(* blocks with the factor definitions of FactorModel.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization, SequencesExt

CONSTANTS NKinds,    \* node kinds
          FKinds,    \* factor kinds
          Robusts,   \* robust kernels 0..4
          MaxNodes, MaxFactors, MaxLen,
          OpSet,     \* enabled operations
          Anchors,   \* subset of BOOLEAN: may nodes be anchors
          Sampling
VARIABLES nodes, factors, ver, snap, hist, sys, alive, done,
          eig,       \* eigen factors: kept and numbered apart from the ordinary ones, never part of the linear system
          off,       \* <<node, factor>> pairs the caller detached through the node: the node forgets it, the graph does not
          ord        \* all factors in the order of insertion: <<"f", id>> or <<"e", id>>
vars == <<nodes, factors, ver, snap, hist, sys, alive, done, eig, ord, off>>

Dim(k) == CASE k = "P2" -> 3 [] k = "P3" -> 6 [] k = "L2" -> 2 [] k = "L3" -> 3 [] k = "PL" -> 4
ODim(k) == CASE k \in {"F1P2", "F2P2", "ODO"} -> 3 [] k = "F1L2" -> 2 [] k \in {"F1P3", "F2P3"} -> 6
             [] k = "F1L3" -> 3 [] k = "F1PL" -> 4 [] k = "PT2PL" -> 1
KA(k) == IF k \in {"F1P2", "F2P2", "ODO", "F1L2"} THEN "P2" ELSE "P3"
Unary(k) == k \in {"F1P2", "F1P3", "PT2PL"}
KB(k) == CASE k \in {"F2P2", "ODO"} -> "P2" [] k = "F1L2" -> "L2" [] k = "F2P3" -> "P3" [] k = "F1L3" -> "L3" [] k = "F1PL" -> "PL" [] OTHER -> "none"
CanInit(k) == k \in {"F2P2", "ODO", "F1L2", "F2P3", "F1L3"}
N == Len(nodes)
M == Len(factors)
Ids == 0..(N - 1)                        \* node ids are zero based
NodeAt(i) == nodes[i + 1]
Active(i) == ~NodeAt(i).anchor
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
(* column of node i in the linear system: dimensions of the non-anchor nodes before it *)
ColOf(i) == SumSeq(TLCEval([j \in 1..i |-> IF nodes[j].anchor THEN 0 ELSE Dim(nodes[j].kind)]))
RowOf(f) == SumSeq(TLCEval([j \in 1..(f - 1) |-> ODim(factors[j].kind)]))
StateDim == SumSeq(TLCEval([j \in 1..N |-> IF nodes[j].anchor THEN 0 ELSE Dim(nodes[j].kind)]))
FObs == RowOf(M + 1)
ObsDim == FObs + SumSeq(TLCEval([j \in 1..Len(eig) |-> ODim(eig[j].kind)]))
NodesOf(f) == IF Unary(f.kind) THEN <<f.a>> ELSE IF f.a < f.b THEN <<f.a, f.b>> ELSE <<f.b, f.a>>    \* in id order
(* blocks of factor number k: for each neighbour in id order, its column (or -1 for an anchor), first Jacobian column, width *)
BlocksOf(k) == LET ns == NodesOf(factors[k]) IN
    TLCEval([j \in 1..Len(ns) |-> [node |-> ns[j], col |-> IF Active(ns[j]) THEN ColOf(ns[j]) ELSE -1,
                                   jc |-> SumSeq(TLCEval([l \in 1..(j - 1) |-> Dim(NodeAt(ns[l]).kind)])), w |-> Dim(NodeAt(ns[j]).kind)]])
Layout == TLCEval([k \in 1..M |-> [row |-> RowOf(k), dim |-> ODim(factors[k].kind), blocks |-> BlocksOf(k)]])
FactorOf(o) == IF o[1] = "f" THEN factors[o[2] + 1] ELSE eig[o[2] + 1]
(* what a node knows: every factor that names it, ordinary or eigen, in the order of insertion *)
Attached(i) == SelectSeq(ord, LAMBDA o : <<i, o>> \notin off /\ i \in {NodesOf(FactorOf(o))[j] : j \in 1..Len(NodesOf(FactorOf(o)))})
(* nodes determined by the factors: anchors, nodes with a full prior, and what they reach by full-rank factors. *)
(* Ransac may switch a factor off, so it determines nothing.                                                   *)
Full(f) == f.rob # 4
RECURSIVE Grow(_)
Grow(S) == LET T == S \cup {i \in Ids : \E k \in 1..M :
                 LET f == factors[k] IN
                 Full(f) /\ ((f.kind \in {"F1P2", "F1P3"} /\ f.a = i)
                             \/ (f.kind \in {"F2P2", "ODO", "F2P3"} /\ ((f.a = i /\ f.b \in S) \/ (f.b = i /\ f.a \in S)))
                             \/ (f.kind \in {"F1L2", "F1L3", "F1PL"} /\ f.b = i /\ f.a \in S))}
           IN IF T = S THEN S ELSE Grow(T)
Determined == eig = <<>> /\ M > 0 /\ StateDim > 0 /\ Grow({i \in Ids : ~Active(i)}) = Ids
(* every factor is linear in the states it may move *)
Linear == \A k \in 1..M : LET f == factors[k] IN
             f.rob = 0 /\ ((f.kind = "F1L3" /\ ~Active(f.a)) \/ f.kind = "F1P2" \/ (f.kind = "F2P2" /\ ~Active(f.a)))

Ch(S) == IF Sampling THEN {RandomElement(S)} ELSE S
Snapshot(f) == TLCEval([j \in 1..Len(NodesOf(f)) |-> <<NodesOf(f)[j], ver[NodesOf(f)[j] + 1]>>])
Init == nodes = <<>> /\ factors = <<>> /\ ver = <<>> /\ snap = <<>> /\ hist = <<>> /\ sys = <<>> /\ alive = TRUE /\ done = FALSE /\ eig = <<>> /\ ord = <<>> /\ off = {}
Log(rec) == hist' = TLCEval(Append(hist, rec))
Same == UNCHANGED <<nodes, factors, ver, snap, sys, alive>>

AddNode == /\ N < MaxNodes
           /\ \E k \in Ch(NKinds), an \in Ch(Anchors) :
                /\ nodes' = Append(nodes, [kind |-> k, anchor |-> an])
                /\ ver' = Append(ver, 0)
                /\ Log([op |-> "node", kind |-> k, anchor |-> an, id |-> N, count |-> N + 1,
                        sdim |-> StateDim + (IF an THEN 0 ELSE Dim(k))])
           /\ UNCHANGED <<factors, snap, sys, alive>>
Pairs(k) == {p \in {[a |-> i, b |-> j] : i, j \in Ids} :
                /\ NodeAt(p.a).kind = KA(k)
                /\ IF Unary(k) THEN p.b = p.a ELSE p.b # p.a /\ NodeAt(p.b).kind = KB(k)
                /\ (k = "ODO" => p.a < p.b)}
Usable == {k \in FKinds : Pairs(k) # {}}
(* sampling only: factors that determine one more node, so that random graphs soon become solvable *)
Helpful == LET D == Grow({i \in Ids : ~Active(i)}) IN
           {k \in Usable \ {"PT2PL"} : \E p \in Pairs(k) : p.b \notin D /\ (IF Unary(k) THEN TRUE ELSE p.a \in D)}
HelpPairs(k) == LET D == Grow({i \in Ids : ~Active(i)}) IN {p \in Pairs(k) : p.b \notin D /\ (IF Unary(k) THEN TRUE ELSE p.a \in D)}
Help == Sampling /\ RandomElement(1..4) > 1 /\ Helpful # {}
AddFactor == /\ M < MaxFactors /\ Usable # {}
             /\ \E h \in {Help} : \E k \in Ch(IF h THEN Helpful ELSE Usable) :
                \E p \in Ch(IF h THEN HelpPairs(k) ELSE Pairs(k)), r \in Ch(Robusts), ini \in Ch(IF CanInit(k) THEN BOOLEAN ELSE {FALSE}) :
                 LET f == [kind |-> k, a |-> p.a, b |-> p.b, rob |-> r, init |-> ini] IN
                 /\ factors' = Append(factors, f)
                 /\ snap' = Append(snap, <<>>) /\ ord' = Append(ord, <<"f", M>>)
                 /\ ver' = IF ini THEN [ver EXCEPT ![p.b + 1] = @ + 1] ELSE ver
                 /\ Log([op |-> "factor", f |-> f, id |-> M, count |-> M + 1, odim |-> ObsDim + ODim(k), order |-> NodesOf(f),
                         ver |-> ver'])
             /\ UNCHANGED <<nodes, sys, alive>>
(* eigen factors share the nodes but not the numbering of the others *)
AddEigen == /\ Len(eig) < MaxFactors /\ Usable # {}
            /\ \E k \in Ch(Usable) : \E p \in Ch(Pairs(k)) :
                 LET f == [kind |-> k, a |-> p.a, b |-> p.b, rob |-> 0, init |-> FALSE] IN
                 /\ eig' = Append(eig, f) /\ ord' = Append(ord, <<"e", Len(eig)>>)
                 /\ Log([op |-> "eigen", f |-> f, id |-> Len(eig), count |-> M, odim |-> ObsDim + ODim(k), order |-> NodesOf(f), ver |-> ver])
            /\ UNCHANGED <<nodes, factors, ver, snap, sys, alive>>
(* one Gauss-Newton step: linearise at the current states, move every non-anchor node *)
Solve == /\ Determined
         /\ snap' = TLCEval([k \in 1..M |-> Snapshot(factors[k])])
         /\ ver' = TLCEval([i \in 1..N |-> IF nodes[i].anchor THEN ver[i] ELSE ver[i] + 1])
         /\ sys' = TLCEval([layout |-> Layout, n |-> StateDim, m |-> ObsDim])
         /\ Log([op |-> "solve", sys |-> sys', snap |-> snap', ver |-> ver', linear |-> Linear])
         /\ UNCHANGED <<nodes, factors, alive>>
(* a damped solve: how far the nodes move is the matter of LMControl; here only which nodes may move. *)
(* The evaluation point it leaves behind is not specified.                                           *)
Lm == /\ Determined
      /\ ver' = TLCEval([i \in 1..N |-> IF nodes[i].anchor THEN ver[i] ELSE ver[i] + 1])
      /\ snap' = TLCEval([k \in 1..M |-> <<<<-1, -1>>>>])
      /\ \E m \in Ch(1..3) : \E it \in Ch({1, 2, 5, 20}) : Log([op |-> "lm", method |-> m, iters |-> it, ver |-> ver'])
      /\ UNCHANGED <<nodes, factors, sys, alive>>
Chi2 == /\ \E e \in Ch(BOOLEAN) :
            LET s == IF e THEN TLCEval([k \in 1..M |-> Snapshot(factors[k])]) ELSE snap IN
            /\ snap' = s
            /\ Log([op |-> "chi2", eval |-> e, snap |-> s, ver |-> ver])
        /\ UNCHANGED <<nodes, factors, ver, sys, alive>>
SetNode == /\ N > 0
           /\ \E i \in Ch(Ids) : ver' = [ver EXCEPT ![i + 1] = @ + 1] /\ Log([op |-> "set", id |-> i, ver |-> ver'])
           /\ UNCHANGED <<nodes, factors, snap, sys, alive>>
Look == /\ Log([op |-> "look", attached |-> TLCEval([i \in 1..N |-> Attached(i - 1)]),
                fnodes |-> TLCEval([k \in 1..M |-> NodesOf(factors[k])]), sdim |-> StateDim, odim |-> ObsDim, ver |-> ver, snap |-> snap])
        /\ Same
BadLook == /\ \E x \in Ch({0, 1, 7, 1000000}), w \in Ch({"node", "factor"}) :
               Log([op |-> "bad", what |-> w, id |-> (IF w = "node" THEN N ELSE M) + x])
           /\ Same
(* the node API can drop one factor from the list of one node; nothing else changes *)
Detachable == {x \in Ids \X {ord[j] : j \in 1..Len(ord)} : \E j \in 1..Len(Attached(x[1])) : Attached(x[1])[j] = x[2]}
Detach == /\ \E x \in Ch(Detachable) : off' = off \cup {x} /\ Log([op |-> "detach", id |-> x[1], what |-> x[2]])
          /\ Same
Destroy == /\ N > 0 /\ alive' = FALSE /\ Log([op |-> "destroy"]) /\ UNCHANGED <<nodes, factors, ver, snap, sys>>

Do(o) == CASE o = "node" -> AddNode [] o = "factor" -> AddFactor [] o = "solve" -> Solve [] o = "chi2" -> Chi2 [] o = "lm" -> Lm
           [] o = "set" -> SetNode [] o = "look" -> Look [] o = "bad" -> BadLook [] o = "destroy" -> Destroy [] o = "eigen" -> AddEigen [] o = "detach" -> Detach
Can(o) == CASE o = "node" -> N < MaxNodes
            [] o = "factor" -> M < MaxFactors /\ Usable # {}
            [] o = "eigen" -> Len(eig) < MaxFactors /\ Usable # {} /\ (Sampling => Len(hist) > MaxLen \div 2)
            [] o \in {"solve", "lm"} -> Determined
            [] o = "detach" -> Len(ord) > 0 /\ (Sampling => RandomElement(1..3) = 1) /\ Detachable # {}
            [] o = "look" -> ~Sampling \/ MaxNodes < 100 \/ Len(hist) % 50 = 0
            [] o = "set" -> N > 0 [] o = "destroy" -> N > 0 /\ Len(hist) > MaxLen - 3
            [] OTHER -> TRUE
Push == Sampling /\ "factor" \in OpSet /\ Can("factor") /\ N >= 2 /\ ~Determined /\ RandomElement(1..8) > 2     \* sampling: reach solvable graphs
Next == alive /\ Len(hist) < MaxLen /\ (\E o \in Ch(IF Push THEN {"factor"} ELSE {x \in OpSet : Can(x)}) : Do(o) /\ (o \notin {"factor", "eigen"} => UNCHANGED ord) /\ (o # "eigen" => UNCHANGED eig) /\ (o # "detach" => UNCHANGED off)) /\ UNCHANGED done
Finish == (Len(hist) >= MaxLen \/ ~alive) /\ ~done /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE
          /\ UNCHANGED <<nodes, factors, ver, snap, hist, sys, alive, eig, ord, off>>
Spec == Init /\ [][Next]_vars
SimSpec == Init /\ [][Next \/ Finish]_vars
View == <<nodes, factors, ver, snap, sys, alive, eig, ord, off>>
EmitEach == PrintT("@@" \o ToJson(hist'))

(*************************** properties ************************************)
(* the rows partition 0..ObsDim-1 and the columns of the non-anchor nodes partition 0..StateDim-1, in id order *)
Partition == /\ \A k \in 1..M : RowOf(k + 1) = RowOf(k) + ODim(factors[k].kind)
             /\ \A i \in 0..(N - 2) : ColOf(i + 1) = ColOf(i) + (IF Active(i) THEN Dim(NodeAt(i).kind) ELSE 0)
             /\ (N > 0 => ColOf(N) = StateDim)
             /\ \A i, j \in Ids : i # j /\ Active(i) /\ Active(j) =>
                    ColOf(i) + Dim(NodeAt(i).kind) <= ColOf(j) \/ ColOf(j) + Dim(NodeAt(j).kind) <= ColOf(i)
(* a node knows exactly the factors that name it *)
Names(f, i) == i = f.a \/ (~Unary(f.kind) /\ i = f.b)
Neighbours == \A i \in Ids : LET S == {Attached(i)[j] : j \in 1..Len(Attached(i))} IN
                 /\ Cardinality(S) = Len(Attached(i))
                 /\ \A k \in 1..M : (<<"f", k - 1>> \in S) <=> (Names(factors[k], i) /\ <<i, <<"f", k - 1>>>> \notin off)
                 /\ \A k \in 1..Len(eig) : (<<"e", k - 1>> \in S) <=> (Names(eig[k], i) /\ <<i, <<"e", k - 1>>>> \notin off)
Apart == Len(ord) = M + Len(eig) /\ FObs <= ObsDim
(* anchors are never part of the system, and no solve changes them *)
AnchorsOut == sys # <<>> => \A k \in 1..Len(sys.layout) : \A j \in 1..Len(sys.layout[k].blocks) :
                  (sys.layout[k].blocks[j].col = -1) <=> ~Active(sys.layout[k].blocks[j].node)
AnchorsStay == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"solve", "lm"}) => \A i \in Ids : ~Active(i) => ver'[i + 1] = ver[i + 1]]_vars
(* asking for the error moves nothing; without re-evaluation it changes nothing at all *)
QueryPure == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"chi2", "look", "bad"}) =>
                  /\ ver' = ver /\ nodes' = nodes /\ factors' = factors
                  /\ (hist'[Len(hist')].op = "chi2" /\ ~hist'[Len(hist')].eval => snap' = snap)]_vars
=============================================================================
