----------------------------- MODULE RobustKernel -----------------------------
(***************************************************************************)
(* Weights of the robust kernels as exact rationals of the normalised      *)
(* distance u = un/ud: quadratic 0, Huber 1, Cauchy 2, McClure 3, Ransac 4 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Nums, Dens
VARIABLES k, u, lastw, phase
vars == <<k, u, lastw, phase>>
Less(a, b) == a[1] * b[2] < b[1] * a[2]
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
(* weight = influence(u)/u of rho: u^2/2 | Huber u^2/2, |u|-1/2 | Cauchy ln(1+u^2)/2 | McClure u^2/(1+u^2)/2 | Ransac min(u^2,1)/2 *)
Weight(kk, x) == LET n == x[1] d == x[2] s == d * d + n * n IN
    CASE kk = 0 -> <<1, 1>>
      [] kk = 1 -> IF n < d THEN <<1, 1>> ELSE <<d, n>>
      [] kk = 2 -> <<d * d, s>>
      [] kk = 3 -> <<d * d, s>>          \* its square root: see Power
      [] kk = 4 -> IF n < d THEN <<1, 1>> ELSE <<0, 1>>
Power(kk) == IF kk = 3 THEN 2 ELSE 1      \* Weight(k, x)^Power(k) is the weight; squaring keeps the order on [0,1]
Us == {<<n, d>> : n \in Nums, d \in Dens}
Init == k \in 0..4 /\ u \in Us /\ lastw = <<-1, 1>> /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ lastw' = Weight(k, u) /\ UNCHANGED <<k, u>>
        /\ PrintT("@@" \o ToJson([k |-> k, u |-> u, w |-> lastw', pw |-> Power(k)]))
Spec == Init /\ [][Next]_vars
InUnit == phase = 1 => Leq(<<0, 1>>, lastw) /\ Leq(lastw, <<1, 1>>) /\ lastw[2] > 0
NonIncreasing == phase = 1 => \A x \in Us : Leq(u, x) => Leq(Weight(k, x), lastw)
(* only Ransac jumps: elsewhere the weight at 1 is the limit from below *)
AtOne == phase = 1 /\ u[1] = u[2] /\ k < 2 => lastw[1] = lastw[2]
InlierFull == phase = 1 /\ u[1] = 0 => lastw[1] = lastw[2]
=============================================================================
