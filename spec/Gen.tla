---------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Call sequences of the specification, to be replayed into the            *)
(* implementation. Which calls may come next depends on the state reached; *)
(* outcomes are the implementation's choice, here any allowed one will do. *)
(* Exhaustive: every sequence of Depth calls. With -simulate: random ones. *)
(***************************************************************************)
EXTENDS MC
CONSTANT Depth
T(n) == ToString(n)
Line(s, c) ==
  CASE c.op = "a"  -> "A " \o T(c.id) \o " s" \o T(c.sz)
    [] c.op = "re" -> "R " \o T(c.old) \o " " \o T(c.id) \o " s" \o T(c.sz)
    [] c.op = "zn" -> "ZN " \o T(c.h) \o " s" \o T(c.sz)
    [] c.op = "za" -> "ZA " \o T(c.h) \o " " \o T(c.id)
    [] c.op = "zt" -> "ZT " \o T(c.h) \o " " \o T(c.id)
    [] c.op = "zd" -> "ZD " \o T(c.h)
    [] c.op = "f"  -> "F " \o T(c.id)
    [] c.op = "fs" -> "FS " \o T(c.id) \o " s" \o T(s.blk[c.id].sz)
    [] c.op = "fp" -> "FP " \o T(c.id)
    [] c.op = "fz" -> "FZ " \o T(c.h) \o " " \o T(c.id)
    [] OTHER -> "FL"
One(s, call) == CHOOSE e \in Allowed(s, call) : TRUE
GInit == Init
GNext ==
  /\ Len(hist) < Depth
  /\ \E call \in Calls(st) :
       /\ Allowed(st, call) # {}
       /\ LET e == One(st, call) IN
          /\ st' = Tidy(Eff(st, e).s)
          /\ hist' = Append(hist, Line(st, call))
          /\ last' = last
          /\ IF Len(hist') = Depth THEN PrintT(<<"SCRIPT", hist'>>) ELSE TRUE
GSpec == GInit /\ [][GNext]_<<st, last, hist>>
GView == hist
=============================================================================
