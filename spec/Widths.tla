------------------------------- MODULE Widths -------------------------------
(* Legal widths of a unit of n channels.  A request is [k, v, q]: the number  *)
(* v (k = "num") or the ratio v/q (k = "ratio"); d, mn, rt: divisor, least    *)
(* width, least ratio in tenths.                                              *)
EXTENDS Integers
MinW(a, b) == IF a < b THEN a ELSE b
MaxW(a, b) == IF a > b THEN a ELSE b
Asked(n, r) == IF r.k = "num" THEN r.v ELSE MaxW(1, (n * r.v) \div r.q)
\* widths below the divisor are not offered, whatever mn says
MakeDiv(v, d, mn, rt) ==
  LET new == MaxW(MaxW(mn, d), ((2 * v + d) \div (2 * d)) * d)
  IN  IF 10 * new < rt * v THEN new + d ELSE new
Width(n, r, d, mn, rt) == MinW(n, MakeDiv(Asked(n, r), d, mn, rt))
Legal(n, d, mn, rt) == {MinW(n, MakeDiv(v, d, mn, rt)) : v \in 1..n}
=============================================================================
