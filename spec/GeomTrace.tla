----------------------------- MODULE GeomTrace ------------------------------
(* Validation of the geometry functions: what they return must satisfy what    *)
(* each promises; where several answers are right, all are accepted.           *)
EXTENDS Geometry, Big, Json, TLC, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nbad
vars == <<l,nbad>>
Init == l = 1 /\ nbad = 0
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Ext(b) == <<Size(b,0),Size(b,1),Size(b,2)>>
InBox(bs,w) == \A i \in 1..Len(bs) : Empty(bs[i]) \/ \A d \in Dirs : Low(bs[i],d) >= Low(w,d) /\ High(bs[i],d) <= High(w,d)
(* as many cells as the world has; volumes of large worlds exceed the integers of TLC *)
BCount(b) == IF Empty(b) THEN <<>> ELSE BMul(BMul(Big(Size(b,0)),Big(Size(b,1))),Big(Size(b,2)))
RECURSIVE BSum(_,_)
BSum(bs,i) == IF i = 0 THEN <<>> ELSE BAdd(BCount(bs[i]),BSum(bs,i-1))
Modest(b) == \A d \in Dirs : Size(b,d) <= 400
Fills(bs,w) == IF Modest(w) /\ Len(bs) < 30 THEN SumCount(bs,Len(bs)) = Count(w) ELSE BSum(bs,Len(bs)) = BCount(w)
Tiles(bs,w) == InBox(bs,w) /\ Disjoint(bs) /\ Fills(bs,w)
(* ---- splitting ---- *)
Even(bs,w,g) == \A d \in Dirs : LET q == Size(w,d) \div g[d+1] IN
   \A i \in 1..Len(bs) : (Empty(bs[i]) /\ Size(bs[i],d) <= 0) \/ Size(bs[i],d) \in {q,q+1}
Split(T) == LET n == T.grid[1]*T.grid[2]*T.grid[3] bs == T.res IN
   /\ T.sizes /\ Len(bs) = T.ranks
   /\ \A i \in 1..Len(bs) : Order(bs[i]) = Order(T.world)
   /\ \A i \in (n+1)..Len(bs) : Empty(bs[i])
   /\ LET a == SubSeq(bs,1,n) IN
      /\ Tiles(a,T.world) /\ Even(a,T.world,T.grid)
      \* rank r sits at (r mod g0, r div g0 mod g1, ...) of the grid
      /\ \A i,j \in 1..n : LET P(q,d) == IF d = 0 THEN (q-1) % T.grid[1] ELSE IF d = 1 THEN ((q-1) \div T.grid[1]) % T.grid[2] ELSE (q-1) \div (T.grid[1]*T.grid[2]) IN
           \A d \in Dirs : (P(i,d) = P(j,d) => Low(a[i],d) = Low(a[j],d) /\ High(a[i],d) = High(a[j],d)) /\ (P(i,d) < P(j,d) => High(a[i],d) < Low(a[j],d))
(* ---- grids of processes ---- *)
Divs(n) == {a \in 1..n : n % a = 0}
Area(a,b) == a*b + a + b
Grid2(T) == LET n == T.np a == T.res[1] b == T.res[2] IN
   /\ a >= 1 /\ b >= 1 /\ a*b = n /\ \A c \in Divs(n) : a+b <= c + n \div c
Surface(w,g) == LET s == [d \in 1..3 |-> Big(w[d] \div g[d])] IN BAdd(BMul(s[1],s[2]), BAdd(BMul(s[2],s[3]), BMul(s[3],s[1])))
Fitting(w,n) == {g \in UNION {{<<a,b,(n \div a) \div b>> : b \in Divs(n \div a)} : a \in Divs(n)} : \A d \in 1..3 : g[d] <= w[d]}
Surf(T) == LET w == Ext(T.world) n == T.np F == Fitting(w,n) IN
   F # {} => T.res \in F /\ LET best == Surface(w,T.res) IN \A g \in F : BLeq(best,Surface(w,g))
Others(d) == IF d = 0 THEN <<2,3>> ELSE IF d = 1 THEN <<1,3>> ELSE <<1,2>>
Fit3(w,d,n) == \E a \in Divs(n) : a <= w[Others(d)[1]] /\ n \div a <= w[Others(d)[2]]
Grid3(T) == LET n == T.grid[1]*T.grid[2] w == Ext(T.world) g == T.res IN
   /\ g[1]*g[2]*g[3] = n /\ g[T.dim+1] = 1 /\ \A d \in 1..3 : g[d] >= 1 /\ g[d] <= w[d]
Declined(T) == \/ T.op = "grid3" /\ ~Fit3(Ext(T.world),T.dim,T.grid[1]*T.grid[2])
               \/ T.op = "pencils" /\ ~FitsPencils(Ext(T.world),Active(Len(T["in"]),T.sub),T.dim)
(* ---- rearrangements ---- *)
InOrder(bs,o) == \A i \in 1..Len(bs) : Order(bs[i]) = <<o[1],o[2],o[3]>>
Holders(bs) == {i \in 1..Len(bs) : ~Empty(bs[i])}
Kept(T) == Len(T.res) = Len(T["in"]) /\ \A i \in 1..Len(T.res) : SameCells(T.res[i],T["in"][i])
Pencils(T) == /\ T.sizes /\ Len(T.res) = Len(T["in"]) /\ InOrder(T.res,T.order) /\ Tiles(T.res,T.world)
              /\ \A i \in Holders(T.res) : Spans(T.res[i],Ext(T.world),T.dim)
              /\ Kept(T) \/ Holders(T.res) \subseteq 1..T.m
Slabs(T) == /\ T.sizes /\ Len(T.res) = Len(T["in"]) /\ InOrder(T.res,T.order) /\ Tiles(T.res,T.world)
            /\ \A i \in Holders(T.res) : Spans(T.res[i],Ext(T.world),T.dim) /\ Spans(T.res[i],Ext(T.world),T.dim2)
            /\ Holders(T.res) \subseteq 1..T.m
(* the boxes are dealt out again, none lost or doubled *)
CellsOf(b) == SubSeq(b,1,6)
Overlap(T) == LET n == Len(T["in"]) IN
   /\ T.sizes /\ Len(T.res) = n /\ InOrder(T.res,T.order)
   /\ \A i \in (T.m+1)..n : CellsOf(T.res[i]) = CellsOf(T["in"][i])
   /\ \A i \in 1..n : Cardinality({j \in 1..n : CellsOf(T.res[j]) = CellsOf(T["in"][i])}) = Cardinality({j \in 1..n : CellsOf(T["in"][j]) = CellsOf(T["in"][i])})
(* ---- relations and box functions ---- *)
Hull(bs) == <<SetMin({bs[i][1] : i \in 1..Len(bs)}),SetMin({bs[i][2] : i \in 1..Len(bs)}),SetMin({bs[i][3] : i \in 1..Len(bs)}),
              SetMax({bs[i][4] : i \in 1..Len(bs)}),SetMax({bs[i][5] : i \in 1..Len(bs)}),SetMax({bs[i][6] : i \in 1..Len(bs)})>>
Whole(bs,w) == \A d \in Dirs : Low(w,d) = 0
B(b) == b = TRUE
Pos(b,d) == IF b[7] = d THEN 0 ELSE IF b[8] = d THEN 1 ELSE 2
OSize(b,i) == Size(b,b[i+7])
BoxOk(b,q,x) == LET h == Collide(b,q) IN
   /\ (Empty(h) = Empty(x.hit)) /\ (~Empty(h) => CellsOf(x.hit) = CellsOf(h) /\ Order(x.hit) = Order(b))
   /\ x.empty = Empty(b) /\ x.n = BCount(b)
   /\ \A d \in Dirs : IF Empty(b) THEN Empty(x.half[d+1]) ELSE x.half[d+1] = R2C(b,d)
   /\ x.eq = (CellsOf(b) = CellsOf(q)) /\ x.ne = ~x.eq /\ x.same = (Order(b) = Order(q))
   /\ x.flat = (\E d \in Dirs : Size(b,d) = 1) /\ x.size = Ext(b)
   /\ \A d \in Dirs : x.pos[d+1] = Pos(b,d) /\ x.os[d+1] = OSize(b,d)
   /\ Modest(b) /\ ~Empty(b) => \A d \in Dirs : /\ x.many[d+1] = (IF Pos(b,d) = 0 THEN OSize(b,1)*OSize(b,2) ELSE IF Pos(b,d) = 1 THEN OSize(b,0) ELSE OSize(b,0)*OSize(b,1))
                                               /\ x.stride[d+1] = (IF Pos(b,d) = 0 THEN 1 ELSE IF Pos(b,d) = 1 THEN OSize(b,0) ELSE OSize(b,0)*OSize(b,1))
Rel(T) == LET a == T["in"] c == T.old w == T.world IN
   /\ CellsOf(w) = Hull(a)
   /\ (T.complete = "complete") = (Whole(a,w) /\ Disjoint(a) /\ Fills(a,w))
   /\ T.match = (Len(a) = Len(c) /\ \A i \in 1..Len(a) : CellsOf(a[i]) = CellsOf(c[i]))
   /\ \A d \in Dirs : T.pencils[d+1] = (\A i \in 1..Len(a) : Size(a[i],d) = Size(w,d))
   /\ \A d,e \in Dirs : T.slabs[d+1][e+1] = (\A i \in 1..Len(a) : Size(a[i],d) = Size(w,d) /\ Size(a[i],e) = Size(w,e))
   /\ T.conn = Cardinality({<<i,j>> \in (1..Len(a)) \X (1..Len(c)) : ~Empty(Collide(a[i],c[j]))})
   /\ Len(T.reordered) = Len(a) /\ InOrder(T.reordered,T.order) /\ \A i \in 1..Len(a) : CellsOf(T.reordered[i]) = CellsOf(a[i])
   /\ \A i \in 1..Len(a) : BoxOk(a[i],c[((i-1) % Len(c))+1],T.box[i])
   /\ T.flat = << <<1,2,0,4,3,0,0,1,2>>, <<1,2,0,4,3,0,1,0,2>> >>
Right(T) == CASE T.op = "split" -> Split(T) [] T.op = "surf" -> Surf(T) [] T.op = "grid2" -> Grid2(T) [] T.op = "grid3" -> Grid3(T)
              [] T.op = "pencils" -> Pencils(T) [] T.op = "slabs" -> Slabs(T) [] T.op = "overlap" -> Overlap(T) [] T.op = "rel" -> Rel(T) [] OTHER -> FALSE
Judge(T) == CASE T.status = "ok" -> IF Right(T) THEN "ok" ELSE T.op
              [] T.status = "nosplit" -> IF Declined(T) THEN "ok" ELSE "declined"
              [] OTHER -> T.status
Next == /\ l <= Len(Recs) /\ l' = l+1
        /\ LET v == Judge(Recs[l]) IN IF v = "ok" THEN UNCHANGED nbad ELSE PrintT(<<"REJECT", Recs[l].id, v, 1>>) /\ nbad' = nbad+1
Spec == Init /\ [][Next]_vars
Done == l = Len(Recs)+1 => PrintT(<<"DONE", Len(Recs), nbad>>)
=============================================================================
