---------------------------- MODULE DampedControl ----------------------------
(***************************************************************************)
(* Control of the iterative solvers: the sparse Levenberg-Marquardt of the *)
(* graph ("sparse"), the generic optimiser ("spher", "ellip") and Newton   *)
(* iterations ("newton").                                                  *)
(* One iteration proposes a step; the outcome says how the error changed:  *)
(* delta = previous - new error is q of the decrease predicted by the      *)
(* damped quadratic model (kind "ratio"), q tolerances (kind "tol"), or    *)
(* far below the tolerance (kind "eps").                                   *)
(* The predicted decrease is large compared with the tolerance.            *)
(* The damping is lambda0 * 2^e.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Outcomes,   \* sequence of records [kind, n, d]
          Methods, Limits, MaxCalls, MaxIters, Sampling,
          MaxExp      \* bound on the damping exponent, so that the predicted decrease stays large
VARIABLES method, limit, call, iter, e, pos, props, lvl, lvl0, running, hist, done
vars == <<method, limit, call, iter, e, pos, props, lvl, lvl0, running, hist, done>>
Ch(S) == IF Sampling THEN {RandomElement(S)} ELSE S

(* class of an outcome *)
Class(o) == IF o.n < 0 THEN "worse"
            ELSE IF o.n = 0 \/ o.kind = "eps" \/ (o.kind = "tol" /\ o.n < o.d) THEN "conv"
            ELSE IF o.kind = "tol" THEN "poor"
            ELSE IF 4 * o.n < o.d THEN "poor"
            ELSE IF 5 * o.n > 4 * o.d THEN "good" ELSE "fair"
Damped(m) == m # "newton"
Small(o) == o.kind = "eps" \/ (o.kind = "tol" /\ o.n <= o.d /\ -o.n <= o.d) \/ o.n = 0        \* |delta| <= tolerance
Exponent(c) == CASE c = "worse" -> e + 1 [] c = "poor" -> e + 1 [] c = "good" -> e - 2 [] OTHER -> e

Init == /\ method = "none" /\ limit = 0 /\ call = 0 /\ iter = 0 /\ e = 0 /\ pos = 0 /\ props = 0 /\ lvl = 0 /\ lvl0 = 0
        /\ running = FALSE /\ hist = <<>> /\ done = FALSE
(* every call starts from the damping given by the caller *)
Start == /\ ~running /\ call < MaxCalls /\ props < MaxIters
         /\ \E m \in Ch(Methods), l \in Ch(Limits) :
              /\ method' = m /\ limit' = l /\ call' = call + 1 /\ iter' = 0 /\ e' = 0 /\ lvl0' = lvl /\ running' = TRUE
              /\ hist' = Append(hist, [op |-> "start", method |-> m, limit |-> l, pos |-> pos])
         /\ UNCHANGED <<pos, props, lvl, done>>
Stop(it, ps, ee, why) == [op |-> "stop", iters |-> it, pos |-> ps, e |-> ee, why |-> why]
Iterate == /\ running /\ props < MaxIters
           /\ \E i \in Ch({j \in 1..Len(Outcomes) : Exponent(Class(Outcomes[j])) <= MaxExp}) :
              LET o == Outcomes[i]
                  c == Class(o)
                  d == Damped(method)
                  p == props + 1                                             \* proposals are numbered, 0 is the start
                  keep == ~d \/ c # "worse"                                  \* Newton keeps whatever it gets
                  ps == IF keep THEN p ELSE pos
                  ee == IF d THEN Exponent(c) ELSE 0
                  over == iter + 1 >= limit
                  conv == IF d THEN c = "conv" ELSE Small(o)
                  rec == [op |-> "iter", o |-> i, e |-> e, from |-> pos, prop |-> p, pos |-> ps, class |-> c]
              IN /\ iter' = iter + 1 /\ props' = p /\ pos' = ps
                 /\ e' = IF conv THEN e ELSE ee
                 /\ lvl' = IF keep THEN (IF o.n < 0 THEN lvl + 1 ELSE IF o.n > 0 THEN lvl - 1 ELSE lvl) ELSE lvl
                 /\ running' = ~(conv \/ over)
                 /\ hist' = IF conv \/ over THEN hist \o <<rec, Stop(iter + 1, ps, e', IF conv THEN "converged" ELSE "limit")>>
                            ELSE Append(hist, rec)
           /\ UNCHANGED <<method, limit, call, lvl0, done>>
Next == (Start \/ Iterate) /\ ~done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* complete histories only: every started call has stopped *)
Complete == ~running /\ hist # <<>>
Finish == Complete /\ ~done /\ (call = MaxCalls \/ props >= MaxIters) /\ PrintT("@@" \o ToJson(hist)) /\ done' = TRUE
          /\ UNCHANGED <<method, limit, call, iter, e, pos, props, lvl, lvl0, running, hist>>
SimSpec == Init /\ [][Next \/ Finish]_vars
View == <<method, limit, call, iter, e, pos, props, lvl, lvl0, running, hist>>
EmitEach == IF ~running' /\ hist' # <<>> /\ hist' # hist THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE

(*************************** properties ************************************)
NeverWorse == Damped(method) => lvl <= lvl0
NeverOver == iter <= limit
(* a rejected step leaves the position, doubles the damping *)
RejectUndoes == [][(iter' > iter /\ hist'[Len(hist) + 1].class = "worse" /\ Damped(method)) =>
                     pos' = pos /\ e' = e + 1 /\ lvl' = lvl]_vars
AcceptMoves == [][(iter' > iter /\ hist'[Len(hist) + 1].class # "worse") => pos' = props' /\ lvl' <= lvl]_vars
FreshDamping == [][call' > call => e' = 0]_vars
StopsWhenSmall == [][(iter' > iter /\ hist'[Len(hist) + 1].class = "conv") => ~running']_vars
Terminates == running ~> ~running
=============================================================================
