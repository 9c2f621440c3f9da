---------------------------- MODULE ValueSemantics ----------------------------
(***************************************************************************)
(* Programs over the objects of the library.  A variable (slot) holds an    *)
(* object or an array; its value is a term: the operation that produced it  *)
(* and the values of the arguments at that time.  Nothing else enters: not  *)
(* how an array is stored, not what happens to other variables, not what    *)
(* was done earlier or is done later with the arguments.  The code is an    *)
(* interpretation of the terms; the driver evaluates every term alone, on   *)
(* fresh objects and plain arrays, and compares all variables after every   *)
(* event of the program.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Topics,      \* parts of the library a program may be about
          NSlots, NLit, Layouts, Omit, \* Omit: whether arguments with a documented default may be left out ({FALSE} or BOOLEAN)
          Scrib,       \* whether arrays are overwritten by the user
          MaxNodes, MaxLen, Only, \* Only: {} or the operations to restrict to
          Sampling
VARIABLES topic, term, slot, hist, done
vars == <<topic, term, slot, hist, done>>
Ch(A) == IF Sampling THEN {RandomElement(A)} ELSE A
S(o, a, r) == [op |-> o, a |-> a, res |-> r, mut |-> FALSE]
M(o, a, r) == [op |-> o, a |-> a, res |-> r, mut |-> TRUE]
(*************************** the operations ********************************)
Rot == << S("SO3exp", <<"vec3">>, "SO3"), S("SO3mat", <<"mat3">>, "SO3"), S("SO3copy", <<"SO3">>, "SO3"), S("SO3R", <<"SO3">>, "mat3"), S("SO3mul", <<"SO3", "SO3">>, "SO3"),
          S("SO3Ln", <<"SO3">>, "vec3"), S("SO3inv", <<"SO3">>, "SO3"), S("SO3adj", <<"SO3">>, "mat3"), S("SO3dist", <<"SO3", "SO3">>, "num"), S("isSO3", <<"mat3">>, "num"),
          M("SO3lhs", <<"SO3", "vec3">>, "none"), M("SO3rhs", <<"SO3", "vec3">>, "none"), M("SO3upd", <<"SO3", "vec3">>, "none"),
          S("hat3", <<"vec3">>, "out"), S("q2R", <<"quat">>, "mat3"), S("R2q", <<"mat3">>, "quat"), S("rpy", <<"vec3">>, "mat3"), S("SE3RT", <<"SO3", "vec3">>, "SE3"), S("SE3R", <<"SE3">>, "mat3") >>
Pose == << S("SE3exp", <<"vec6">>, "SE3"), S("SE3mat", <<"mat4">>, "SE3"), S("SE3copy", <<"SE3">>, "SE3"), S("SE3T", <<"SE3">>, "mat4"), S("SE3R", <<"SE3">>, "mat3"), S("SE3t", <<"SE3">>, "vec3"),
           S("SE3mul", <<"SE3", "SE3">>, "SE3"), S("SE3star", <<"SE3", "SE3">>, "SE3"), S("SE3Ln", <<"SE3">>, "vec6"), S("SE3inv", <<"SE3">>, "SE3"), S("SE3adj", <<"SE3">>, "out"),
           S("act", <<"SE3", "vec3">>, "vec3"), S("actA", <<"SE3", "ptsA">>, "ptsA"), S("actB", <<"SE3", "ptsB">>, "ptsB"), S("SE3dist", <<"SE3", "SE3">>, "num"), S("SE3dist1", <<"SE3">>, "num"),
           S("SE3distR", <<"SE3", "SE3">>, "num"), S("SE3distR1", <<"SE3">>, "num"), S("SE3distT", <<"SE3", "SE3">>, "num"), S("SE3distT1", <<"SE3">>, "num"), S("isSE3", <<"mat4">>, "num"),
           M("SE3lhs", <<"SE3", "vec6">>, "none"), M("SE3rhs", <<"SE3", "vec6">>, "none"), M("SE3upd", <<"SE3", "vec6">>, "none"), S("hat6", <<"vec6">>, "out") >>
Cov == << S("Cov", <<"SE3", "mat6">>, "SE3Cov"), S("CovCopy", <<"SE3Cov">>, "SE3Cov"), S("CovC", <<"SE3Cov">>, "mat6"), S("CovT", <<"SE3Cov">>, "mat4"), S("Cov2", <<"SE3Cov", "SE3Cov">>, "SE3Cov"),
          S("Cov2b", <<"SE3Cov", "SE3", "mat6">>, "SE3Cov"), S("Cov4", <<"SE3Cov", "SE3Cov">>, "SE3Cov"), S("Cov4b", <<"SE3Cov", "SE3", "mat6">>, "SE3Cov"), S("CovMul", <<"SE3Cov", "SE3Cov">>, "SE3Cov"),
          S("CovStar", <<"SE3Cov", "SE3Cov">>, "SE3Cov"), S("CovAsPose", <<"SE3", "SE3Cov">>, "SE3"), M("CovLhs", <<"SE3Cov", "vec6">>, "none"), S("curly", <<"vec6">>, "out"), S("SE3copy", <<"SE3Cov">>, "SE3") >>
Pts == << S("arunA", <<"ptsA", "ptsA">>, "SE3"), S("arunB", <<"ptsB", "ptsB">>, "SE3"), S("weiA", <<"ptsA", "ptsA", "wA">>, "SE3"), S("weiB", <<"ptsB", "ptsB", "wB">>, "SE3"),
          S("gicpA", <<"ptsA", "SE3", "covA", "covA">>, "SE3"), S("gicpB", <<"ptsB", "SE3", "covB", "covB">>, "SE3"), S("planeA", <<"ptsA">>, "plane"), S("planeB", <<"ptsB">>, "plane"),
          S("normA", <<"ptsA">>, "vec3"), S("normB", <<"ptsB">>, "vec3"), S("cenA", <<"ptsA">>, "vec3"), S("cenB", <<"ptsB">>, "vec3"), S("actA", <<"SE3", "ptsA">>, "ptsA"), S("actB", <<"SE3", "ptsB">>, "ptsB") >>
G2 == << M("gP2", <<"graph", "vec3">>, "num"), M("gP2", <<"graph", "vec3">>, "num"), M("gL2", <<"graph", "vec2">>, "num"), M("gF1P2", <<"graph", "vec3", "inf3">>, "num"), M("gF1P2", <<"graph", "vec3", "inf3">>, "num"),
         M("gF2P2", <<"graph", "vec3", "inf3">>, "num"), M("gODO", <<"graph", "vec3", "inf3">>, "num"), M("gF1L2", <<"graph", "vec2", "inf2">>, "num") >>
G3 == << M("gP3", <<"graph", "SE3">>, "num"), M("gP3", <<"graph", "SE3">>, "num"), M("gL3", <<"graph", "vec3">>, "num"), M("gPL", <<"graph", "plane">>, "num"), M("gF1P3", <<"graph", "SE3", "mat6">>, "num"), M("gF1P3", <<"graph", "SE3", "mat6">>, "num"),
         M("gF2P3", <<"graph", "SE3", "mat6">>, "num"), M("gF1L3", <<"graph", "vec3", "inf3">>, "num"), M("gF1PL", <<"graph", "plane", "inf4">>, "num"), M("gPT", <<"graph", "vec3", "vec3", "vec3", "inf1">>, "num") >>
GS == << M("gSolve", <<"graph">>, "none"), M("gSolve", <<"graph">>, "none"), M("gChi2", <<"graph">>, "num"), S("gStates", <<"graph">>, "out"), S("gB", <<"graph">>, "out"), S("gInfo", <<"graph">>, "out"), S("gAdj", <<"graph">>, "out"),
         S("gW", <<"graph">>, "out"), S("gChiArr", <<"graph">>, "out"), S("gCount", <<"graph">>, "out") >>
Reg == << M("rSet", <<"reg">>, "none"), M("rAdd", <<"reg">>, "none"), M("rSee", <<"reg", "ptsA">>, "none"), M("rSee", <<"reg", "ptsB">>, "none"), M("rLast", <<"reg", "SE3">>, "none"), M("rReset", <<"reg">>, "none"),
          M("rSolve", <<"reg">>, "num"), M("rSolve", <<"reg">>, "num"), S("rTraj", <<"reg">>, "SE3"), S("rTail", <<"reg">>, "SE3"), M("rErr", <<"reg">>, "num"), S("rCloud", <<"reg">>, "out"), S("rNum", <<"reg">>, "num"),
          S("SE3inv", <<"SE3">>, "SE3"), S("SE3T", <<"SE3">>, "mat4"), M("SE3lhs", <<"SE3", "vec6">>, "none"), S("SE3mul", <<"SE3", "SE3">>, "SE3") >>
Few(q) == << q[1], q[2], q[3] >>
Sigs(f) == CASE f = "rot" -> Rot [] f = "pose" -> Pose \o << Rot[1] >> [] f = "cov" -> Cov \o Cov \o << Pose[1], Pose[7], Pose[22] >> [] f = "points" -> Pts \o << Pose[1], Pose[6], Pose[22] >>
             [] f = "graph2" -> G2 \o GS [] f = "graph3" -> G3 \o GS \o << Pose[7], Pose[22], Pose[4] >> [] f = "graphs" -> G2 \o G3 \o GS [] f = "planes" -> Reg [] OTHER -> Rot \o Pose \o Cov \o Pts
Objects == {"SO3", "SE3", "SE3Cov", "graph", "reg"}
IntKinds == {"vec2", "vec3", "vec6", "ptsA", "ptsB", "wA", "wB"}
Flat == {"vec2", "vec3", "vec6", "quat", "plane", "wA", "wB"}
SkipOp(o) == Only # {} /\ o \notin Only
Kinds(f) == TLCEval(UNION {{Sigs(f)[i].a[j] : j \in 1..Len(Sigs(f)[i].a)} : i \in {x \in 1..Len(Sigs(f)) : ~SkipOp(Sigs(f)[x].op)}})
None == [k |-> "none", v |-> 0, r |-> "x", ro |-> FALSE, g |-> <<>>]
Slots == 1..NSlots
Of(k) == {s \in Slots : slot[s].k = k}
Init == topic = "none" /\ term = <<>> /\ slot = [s \in Slots |-> None] /\ hist = <<>> /\ done = FALSE
Begin == topic = "none" /\ \E f \in Ch(Topics) : topic' = f /\ UNCHANGED <<term, slot, hist, done>>
Log(r) == hist' = TLCEval(Append(hist, r @@ [v |-> [s \in Slots |-> slot'[s].v], t |-> Len(term')]))
(* where a new value goes: an empty slot, else one that does not hold a graph or a registration *)
Plain == {s \in Slots : slot[s].k \notin {"graph", "reg"}}
Room == IF Of("none") # {} THEN Of("none") ELSE IF Plain # {} THEN Plain ELSE Slots
(*************************** literals and overwriting ***********************)
LayoutsOf(k) == IF k \in Objects THEN {"C"} ELSE {l \in Layouts : (l = "int" => k \in IntKinds) /\ (l \in {"F", "T"} => k \notin Flat) /\ (l = "col" => k \in Flat)}
Round(l) == IF l \in {"f32", "int"} THEN l ELSE "x"
LitTerm(k, i, r) == [op |-> "lit", a |-> <<>>, p |-> <<i>>, r |-> r, k |-> k]
LitG(k, i) == CASE k = "reg" -> (IF i = 1 THEN [n |-> 2, v |-> << <<>>, <<>>, <<>> >>] ELSE [n |-> 3, v |-> << <<1, 1, 1>>, <<1, 1, 1>>, <<1, 1, 1>> >>])
                [] k = "graph" -> [nodes |-> <<>>, solved |-> FALSE]
                [] OTHER -> <<>>
Lit(k) == \E i \in Ch(1..NLit), l \in Ch(LayoutsOf(k)), s \in Ch(Room), d \in Ch(Omit) :
    /\ term' = Append(term, LitTerm(k, i, Round(l)))
    /\ slot' = [slot EXCEPT ![s] = [k |-> k, v |-> Len(term'), r |-> Round(l), ro |-> l = "ro", g |-> LitG(k, i)]]
    /\ Log([e |-> "lit", op |-> "lit", s |-> s, a |-> <<>>, k |-> k, p |-> <<i>>, lay |-> l, d |-> d])
(* the user writes other numbers into an array, in place *)
Overwrite(s) == \E i \in Ch(1..NLit) :
    /\ term' = Append(term, [LitTerm(slot[s].k, i, slot[s].r) EXCEPT !.op = IF slot[s].k = "out" THEN "zero" ELSE "lit", !.a = IF slot[s].k = "out" THEN <<slot[s].v>> ELSE <<>>])
    /\ slot' = [slot EXCEPT ![s].v = Len(term')]
    /\ Log([e |-> "scrib", op |-> "scrib", s |-> s, a |-> <<>>, k |-> slot[s].k, p |-> <<i>>, lay |-> "C", d |-> FALSE])
(* the variable is dropped: its object goes away *)
Drop(s) == /\ slot' = [slot EXCEPT ![s] = None] /\ UNCHANGED term
           /\ Log([e |-> "drop", op |-> "drop", s |-> s, a |-> <<>>, k |-> slot[s].k, p |-> <<>>, lay |-> "C", d |-> FALSE])
(*************************** graphs *****************************************)
NodesOf(g, k) == {i \in 1..Len(g.nodes) : g.nodes[i].k = k}
Fixed(g, i) == g.nodes[i].an \/ g.nodes[i].c
Solvable(g) == (\E i \in 1..Len(g.nodes) : ~g.nodes[i].an) /\ \A i \in 1..Len(g.nodes) : Fixed(g, i)
Pairs(g, k, m) == {<<i, j>> \in NodesOf(g, k) \X NodesOf(g, m) : i # j}
(* the integer parameters an operation may have in this state; {} when it may not be called *)
Params(o, x) ==
  CASE o \in {"gP2", "gP3", "gL2", "gL3", "gPL"} -> IF Len(x.nodes) < MaxNodes THEN {<<0>>, <<0>>, <<1>>} ELSE {}
    [] o = "gF1P2" -> {<<i>> : i \in NodesOf(x, "gP2")}
    [] o = "gF2P2" -> {<<q[1], q[2], u>> : q \in Pairs(x, "gP2", "gP2"), u \in {0, 1}}
    [] o = "gODO" -> {<<q[1], q[2]>> : q \in Pairs(x, "gP2", "gP2")}
    [] o = "gF1L2" -> {<<q[1], q[2], u>> : q \in Pairs(x, "gP2", "gL2"), u \in {0, 1}}
    [] o = "gF1P3" -> {<<i>> : i \in NodesOf(x, "gP3")}
    [] o = "gF2P3" -> {<<q[1], q[2], u>> : q \in Pairs(x, "gP3", "gP3"), u \in {0, 1}}
    [] o = "gF1L3" -> {<<q[1], q[2], u>> : q \in Pairs(x, "gP3", "gL3"), u \in {0, 1}}
    [] o = "gF1PL" -> Pairs(x, "gP3", "gPL")
    [] o = "gPT" -> {<<i>> : i \in NodesOf(x, "gP3")}
    [] o = "gSolve" -> IF Solvable(x) THEN {<<0>>, <<1>>, <<2>>} ELSE {}
    [] o = "gChi2" -> {<<1>>} \cup (IF x.solved THEN {<<0>>} ELSE {})
    [] o \in {"gB", "gInfo", "gAdj", "gW", "gChiArr"} -> IF x.solved THEN {<<>>} ELSE {}
    [] o = "rSet" -> {<<3, 2>>, <<3, 3>>}
    [] o = "rAdd" -> {<<i>> : i \in {j \in 1..3 : x.v[j] = <<>>}}
    [] o = "rSee" -> {q \in (1..3) \X (1..x.n) : x.v[q[1]] # <<>> /\ x.v[q[1]][q[2]] < 2}
    [] o = "rSolve" -> IF \A i \in 1..3 : x.v[i] # <<>> /\ \A t \in 1..x.n : x.v[i][t] > 0 THEN {<<m>> : m \in 0..5} ELSE {}
    [] o = "rTraj" -> {<<t>> : t \in 1..x.n}
    [] o = "rCloud" -> {<<t>> : t \in 1..x.n}
    [] OTHER -> {<<>>}
Cover(x, i) == [x EXCEPT !.nodes[i].c = TRUE, !.solved = FALSE]
New(o, x, p) ==
  CASE o \in {"gP2", "gP3", "gL2", "gL3", "gPL"} -> [x EXCEPT !.nodes = Append(@, [k |-> o, c |-> FALSE, an |-> p[1] = 1]), !.solved = FALSE]
    [] o \in {"gF1P2", "gF1P3"} -> Cover(x, p[1])
    [] o \in {"gF2P2", "gF2P3", "gODO"} -> IF Fixed(x, p[1]) THEN Cover(x, p[2]) ELSE IF Fixed(x, p[2]) THEN Cover(x, p[1]) ELSE [x EXCEPT !.solved = FALSE]
    [] o \in {"gF1L2", "gF1L3", "gF1PL"} -> IF Fixed(x, p[1]) THEN Cover(x, p[2]) ELSE [x EXCEPT !.solved = FALSE]
    [] o = "gPT" -> [x EXCEPT !.solved = FALSE]
    [] o = "gSolve" -> [x EXCEPT !.solved = TRUE]
    [] o = "rSet" -> [n |-> p[2], v |-> << <<>>, <<>>, <<>> >>]
    [] o = "rAdd" -> [x EXCEPT !.v[p[1]] = [t \in 1..x.n |-> 0]]
    [] o = "rSee" -> [x EXCEPT !.v[p[1]][p[2]] = @ + 1]
    [] OTHER -> x
(*************************** calls ******************************************)
(* sampling: most factors determine a node that was not determined yet, so that graphs soon become solvable *)
Covers == {"gF1P2", "gF1P3", "gF2P2", "gF2P3", "gODO", "gF1L2", "gF1L3", "gF1PL"}
Loose(x) == Cardinality({i \in 1..Len(x.nodes) : ~Fixed(x, i)})
Useful(o, x) == IF o \in Covers THEN {p \in Params(o, x) : Loose(New(o, x, p)) < Loose(x)} ELSE {}
CanCall(q) == ~SkipOp(q.op) /\ (\A i \in 1..Len(q.a) : Of(q.a[i]) # {}) /\ (\E s \in Of(q.a[1]) : Params(q.op, slot[s].g) # {})
Firsts(q) == {s \in Of(q.a[1]) : Params(q.op, slot[s].g) # {}}
Best(q) == LET u == {s \in Firsts(q) : q.op \in Covers /\ Useful(q.op, slot[s].g) # {}} IN IF u # {} /\ RandomElement(1..3) > 1 THEN u ELSE Firsts(q)
Args(q) == IF Sampling THEN {TLCEval([i \in 1..Len(q.a) |-> IF i = 1 THEN RandomElement(Best(q)) ELSE RandomElement(Of(q.a[i]))])}
           ELSE {f \in [1..Len(q.a) -> Slots] : f[1] \in Firsts(q) /\ \A i \in 1..Len(q.a) : slot[f[i]].k = q.a[i]}
Choices(o, x) == IF Sampling /\ RandomElement(1..4) > 1 /\ Useful(o, x) # {} THEN Useful(o, x) ELSE Params(o, x)
Call(q) == \E f \in Args(q) : \E p \in Ch(Choices(q.op, slot[f[1]].g)), d \in Ch(Omit) :
    /\ term' = Append(term, [op |-> q.op, a |-> [i \in 1..Len(q.a) |-> slot[f[i]].v], p |-> p, r |-> "x", k |-> IF q.mut THEN q.a[1] ELSE q.res])
    /\ IF q.mut THEN slot' = [slot EXCEPT ![f[1]].v = Len(term'), ![f[1]].g = New(q.op, slot[f[1]].g, p)] /\ Log([e |-> "call", op |-> q.op, s |-> f[1], a |-> f, k |-> "mut", p |-> p, lay |-> "C", d |-> d])
       ELSE IF q.res = "num" THEN UNCHANGED slot /\ Log([e |-> "call", op |-> q.op, s |-> 0, a |-> f, k |-> "num", p |-> p, lay |-> "C", d |-> d])
       ELSE \E s \in Ch(Room) : /\ slot' = [slot EXCEPT ![s] = [k |-> q.res, v |-> Len(term'), r |-> "x", ro |-> FALSE, g |-> <<>>]]
                                /\ Log([e |-> "call", op |-> q.op, s |-> s, a |-> f, k |-> q.res, p |-> p, lay |-> "C", d |-> d])
Writable == {s \in Slots : slot[s].k \notin Objects \cup {"none"} /\ ~slot[s].ro}
Able(f) == {i \in 1..Len(Sigs(f)) : CanCall(Sigs(f)[i])}
(* literals worth having: kinds of the topic of which there are few *)
Wanted(f) == LET K == Kinds(f) none == {k \in K : Of(k) = {}} few == {k \in K : Cardinality(Of(k)) < 2} IN
             IF none # {} THEN none ELSE IF few # {} THEN few ELSE K \ (IF Cardinality(Of("graph")) > 2 THEN {"graph"} ELSE {})
Step(w) == LET able == TLCEval(Able(topic)) IN
    CASE w = "lit" \/ able = {} -> \E k \in Ch(Wanted(topic)) : Lit(k)
      [] w = "scrib" /\ Scrib /\ Writable # {} -> \E s \in Ch(Writable) : Overwrite(s)
      [] w = "drop" /\ Of("none") = {} /\ Plain # {} -> \E s \in Ch(Plain) : Drop(s)
      [] OTHER -> LET solve == {i \in able : Sigs(topic)[i].op = "gSolve"} fix == {i \in able : Sigs(topic)[i].op \in Covers /\ \E s \in Of("graph") : Useful(Sigs(topic)[i].op, slot[s].g) # {}} pick == RandomElement(1..6) IN
                  \E i \in Ch(IF Sampling /\ pick = 1 /\ solve # {} THEN solve ELSE IF Sampling /\ pick <= 4 /\ fix # {} THEN fix ELSE able) : Call(Sigs(topic)[i])
Freq == <<"lit", "lit", "lit", "scrib", "scrib", "drop", "call", "call", "call", "call", "call", "call">>
Early == <<"lit", "lit", "call">>
Next == topic # "none" /\ Len(hist) < MaxLen /\ UNCHANGED <<topic, done>> /\
        IF Sampling THEN \E w \in (IF Len(hist) < 10 THEN {Early[RandomElement(1..3)]} ELSE {Freq[RandomElement(1..Len(Freq))]}) : Step(w)
        ELSE (\E k \in Kinds(topic) : Of(k) = {} /\ Lit(k)) \/ (Scrib /\ \E s \in Writable : Overwrite(s)) \/ (\E i \in Able(topic) : Call(Sigs(topic)[i]))
Out(h, t, f) == PrintT("@@" \o ToJson([hist |-> h, term |-> t, topic |-> f]))
Finish == Len(hist) = MaxLen /\ ~done /\ Out(hist, term, topic) /\ done' = TRUE /\ UNCHANGED <<topic, term, slot, hist>>
SimSpec == Init /\ [][Begin \/ Next \/ Finish]_vars
Spec == Init /\ [][Begin \/ Next]_vars
EmitFull == Len(hist') = MaxLen => Out(hist', term', topic')
(*************************** properties ************************************)
WellFormed == \A s \in Slots : slot[s].k = "none" \/ (slot[s].v \in 1..Len(term) /\ term[slot[s].v].k = slot[s].k)
(* terms only refer to earlier terms, so every value can be computed from its own history alone *)
Grounded == \A t \in 1..Len(term) : \A i \in 1..Len(term[t].a) : term[t].a[i] < t
(* an event changes the value of one variable at most: the one it names; arguments keep their values *)
OneChanges == [][\A s \in Slots : slot'[s] # slot[s] => s = hist'[Len(hist')].s]_vars
(* a value once computed is never altered *)
TermsStay == [][Len(term') >= Len(term) /\ SubSeq(term', 1, Len(term)) = term]_vars
=============================================================================
