------------------------------- MODULE UXQuant ------------------------------
(***************************************************************************)
(* The fundamental diagram of a link: quantities which follow from the     *)
(* free flow speed u (0.1 m/s), the jam density kappa (0.001 veh/m of all  *)
(* lanes), the number of lanes and the reaction time (0.1 s):              *)
(*   backward wave speed  w = lanes / (rt * kappa)                         *)
(*   capacity             q* = u * w * kappa / (u + w)                     *)
(*   critical density     k* = q* / u                                      *)
(*   spacing in a jam     delta = 1 / kappa, per lane lanes / kappa        *)
(* Reported values are integers: cap, qstar 0.0001 veh/s; kstar 1e-6       *)
(* veh/m; w 0.01 m/s; delta, dpl 0.001 m; u 0.1 m/s; kappa 0.001 veh/m.    *)
(***************************************************************************)
EXTENDS Integers
LOCAL Abs(x) == IF x < 0 THEN 0 - x ELSE x
(* in two divisions, within 32 bit *)
Cap(rt10, l, c4) ==
  LET den == l.u * l.kappa * rt10 + 100000 * l.lanes
      num == l.u * l.kappa * l.lanes * 1000
      want == (num \div den) * 100 + ((num % den) * 100) \div den
  IN Abs(c4 - want) <= 2 + want \div 250
Quantities(rt10, l, f) ==
  (IF Cap(rt10, l, f.cap) /\ Abs(f.qstar - f.cap) <= 1 /\ Abs(f.kstar * l.u - f.cap * 1000) <= l.u * 2 + 1000 THEN {} ELSE {"net-capacity"})
  \cup (IF Abs(f.w * rt10 * l.kappa - l.lanes * 1000000) <= rt10 * l.kappa THEN {} ELSE {"net-wave-speed"})
  \cup (IF Abs(f.delta * l.kappa - 1000000) <= l.kappa /\ Abs(f.dpl * l.kappa - l.lanes * 1000000) <= l.kappa THEN {} ELSE {"net-spacing"})
=============================================================================
