-------------------------------- MODULE Packed --------------------------------
(* Large arrays are recorded as runs <<first, step, number>> that never cross  *)
(* the end of a line (of the fastest direction) of the box they fill.  Nothing *)
(* is lost; contents that change evenly along a line have one run per line.    *)
EXTENDS Geometry
IsPacked(T) == "pk" \in DOMAIN T /\ T.pk = 1
Line(b) == Size(b,b[7])
(* v fills box b m times, First(j,c): value at the first cell c of a line in    *)
(* item j (from 0), step: along the fastest direction                          *)
PackedIs(b, v, m, First(_,_), step) ==
  IF Empty(b) THEN v = <<>>
  ELSE LET s0 == Line(b) lines == Count(b) \div s0 IN
       /\ Len(v) = lines*m
       /\ \A i \in 1..Len(v) : /\ v[i][3] = s0
                               /\ v[i][1] = First((i-1) \div lines, CellAt(b,((i-1)%lines)*s0))
                               /\ s0 = 1 \/ v[i][2] = step
(* number of cells between neighbours of direction d *)
Stride(n,d) == CASE d = 0 -> 1 [] d = 1 -> n[1] [] OTHER -> n[1]*n[2]
================================================================================
