------------------------------ MODULE Geometry ------------------------------
(* Index boxes and their memory layout.  A box is the 9-tuple                *)
(* <<low0,low1,low2, high0,high1,high2, order0,order1,order2>>, inclusive    *)
(* bounds; order lists the directions from fastest to slowest in memory.     *)
EXTENDS Integers, Sequences, FiniteSets

Dirs == 0..2
Low(b,d)   == b[d+1]
High(b,d)  == b[d+4]
Ord(b,i)   == b[i+7]
Order(b)   == <<b[7],b[8],b[9]>>
Size(b,d)  == b[d+4] - b[d+1] + 1
Empty(b)   == \E d \in Dirs : Size(b,d) <= 0
Count(b)   == IF Empty(b) THEN 0 ELSE Size(b,0)*Size(b,1)*Size(b,2)
SameCells(b,c) == (Empty(b) /\ Empty(c)) \/ \A i \in 1..6 : b[i] = c[i]
Min(x,y) == IF x < y THEN x ELSE y
Max(x,y) == IF x > y THEN x ELSE y
EmptyBox(o) == <<0,0,0,-1,-1,-1,o[1],o[2],o[3]>>
Collide(b,c) == IF Empty(b) \/ Empty(c) THEN <<0,0,0,-1,-1,-1,0,1,2>>
                ELSE <<Max(b[1],c[1]),Max(b[2],c[2]),Max(b[3],c[3]),Min(b[4],c[4]),Min(b[5],c[5]),Min(b[6],c[6]),b[7],b[8],b[9]>>
(* the cell <<x,y,z>> stored at address a (from 0) of a box *)
CellAt(b,a) == LET s0 == Size(b,b[7]) s1 == Size(b,b[8])
                   q0 == a % s0  q1 == (a \div s0) % s1  q2 == a \div (s0*s1)
                   At(d) == Low(b,d) + (IF b[7]=d THEN q0 ELSE IF b[8]=d THEN q1 ELSE q2)
               IN <<At(0),At(1),At(2)>>
Addr(b,c) == LET R(i) == c[Ord(b,i)+1] - Low(b,Ord(b,i))
             IN (R(2)*Size(b,Ord(b,1)) + R(1))*Size(b,Ord(b,0)) + R(0)
Inside(b,c) == \A d \in Dirs : Low(b,d) <= c[d+1] /\ c[d+1] <= High(b,d)
Cells(b) == IF Empty(b) THEN {} ELSE {<<x,y,z>> : x \in Low(b,0)..High(b,0), y \in Low(b,1)..High(b,1), z \in Low(b,2)..High(b,2)}
(* number of a cell in a world of sizes n *)
Id(n,c) == c[1] + n[1]*(c[2] + n[2]*c[3])
Vol(n) == n[1]*n[2]*n[3]
WorldBox(n) == <<0,0,0,n[1]-1,n[2]-1,n[3]-1,0,1,2>>
(* real-to-complex reduction *)
Half(n) == n \div 2 + 1
R2C(b,d) == IF Empty(b) THEN b ELSE [b EXCEPT ![d+4] = Low(b,d) + Size(b,d) \div 2]
Reduced(n,d) == IF d = -1 THEN n ELSE [n EXCEPT ![d+1] = Half(n[d+1])]
Spans(b,n,d) == Low(b,d) = 0 /\ High(b,d) = n[d+1]-1
(* the boxes cover the world exactly once *)
RECURSIVE SumCount(_,_)
SumCount(bs,i) == IF i = 0 THEN 0 ELSE Count(bs[i]) + SumCount(bs,i-1)
Disjoint(bs) == \A i \in 1..Len(bs) : \A j \in 1..(i-1) : Empty(Collide(bs[i],bs[j]))
Within(bs,n) == \A i \in 1..Len(bs) : Empty(bs[i]) \/ \A d \in Dirs : Low(bs[i],d) >= 0 /\ High(bs[i],d) < n[d+1]
Partition(bs,n) == Within(bs,n) /\ SumCount(bs,Len(bs)) = Vol(n) /\ Disjoint(bs)
(* n pencils in direction d: some two-dimensional grid of n boxes fits the world *)
FitsPencils(w,n,d) == \E a \in 1..n : n % a = 0 /\ a <= w[((d+1)%3)+1] /\ n \div a <= w[((d+2)%3)+1]
Fits(w,n) == \A d \in Dirs : FitsPencils(w,n,d)
(* ranks that take part in the distributions the library forms itself *)
Active(n,sub) == IF sub > 0 /\ sub < n THEN sub ELSE n
IsOrder(o) == {o[1],o[2],o[3]} = {0,1,2}
=============================================================================
