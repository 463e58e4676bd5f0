------------------------------- MODULE Engine -------------------------------
(* The built-in one-dimensional engine: a call graph for a length, and what its  *)
(* nodes do.  Nodes are a sum over all (dft), radix 2, 3 and 4 for powers, a     *)
(* product of two lengths, and Rader's algorithm for a prime.  Whatever graph    *)
(* is taken for a length, the result is the discrete Fourier transform: every    *)
(* single one (at pos) becomes the line of its phases.  Which graphs the code    *)
(* makes is recorded and judged by TreeTrace, what it computes by ExecTrace.     *)
EXTENDS Field
CONSTANTS Lengths, Mistake        \* Mistake: "none", or what a wrong engine does
VARIABLES n, tree, field, pos, dir
vars == <<n,tree,field,pos,dir>>
PowerOf(N,b) == LET RECURSIVE P(_)  P(m) == IF m = 1 THEN TRUE ELSE m % b = 0 /\ P(m \div b) IN N > 1 /\ P(N)
RECURSIVE Trees(_)
Trees(N) == {<<"dft",N>>}
  \cup (IF PowerOf(N,2) THEN {<<"pow2",N>>} ELSE {}) \cup (IF PowerOf(N,3) THEN {<<"pow3",N>>} ELSE {}) \cup (IF PowerOf(N,4) THEN {<<"pow4",N>>} ELSE {})
  \cup UNION {{<<"comp",N,a,b>> : a \in Trees(d), b \in Trees(N \div d)} : d \in {k \in 2..N-1 : N % k = 0}}
  \cup (IF N > 3 /\ IsPrime(N) THEN {<<"rader",N,t>> : t \in Trees(N-1)} ELSE {})
(* the roots of unity a graph needs *)
RECURSIVE Need(_)
Need(t) == CASE t[1] = "comp" -> Lcm(t[2], Lcm(Need(t[3]),Need(t[4]))) [] t[1] = "rader" -> Lcm(t[2]*(t[2]-1), Need(t[3])) [] t[1] = "pow4" -> t[2] [] OTHER -> t[2]
RECURSIVE Pow2(_,_,_,_), Pow3(_,_,_,_), Pow4(_,_,_,_), Run(_,_,_,_)
Every(x,N,m,s) == TLCEval([j \in 0..(N \div m)-1 |-> x[j*m+s]])
Pow2(E,N,x,d) == IF N = 2 THEN TLCEval((0 :> Plus(E,x[0],x[1])) @@ (1 :> Minus(E,x[0],x[1]))) ELSE
   LET m == N \div 2 a == Pow2(E,m,Every(x,N,2,0),d) b == Pow2(E,m,Every(x,N,2,1),d)
   IN TLCEval([k \in 0..N-1 |-> LET j == k % m w == Times(E,Omega(E,j,N,d),b[j]) IN IF k < m THEN Plus(E,a[j],w) ELSE Minus(E,a[j],w)])
Pow3(E,N,x,d) == LET p == Omega(E,1,3,d) r == Omega(E,2,3,d) IN
   LET m == N \div 3 leaf == N = 3
       y == [s \in 0..2 |-> IF leaf THEN (0 :> x[s]) ELSE Pow3(E,m,Every(x,N,3,s),d)]
   IN TLCEval([k \in 0..N-1 |-> LET j == k % m b == Times(E,Omega(E,j,N,d),y[1][j]) c == Times(E,Omega(E,2*j,N,d),y[2][j]) t == k \div m
        IN Plus(E,y[0][j], Plus(E, Times(E,b,CASE t = 0 -> 1 [] t = 1 -> p [] t = 2 -> r), Times(E,c,CASE t = 0 -> 1 [] t = 1 -> r [] t = 2 -> p)))])
Pow4(E,N,x,d) == LET i == Omega(E,1,4,d) IN
   LET m == N \div 4 y == [s \in 0..3 |-> IF N = 4 THEN (0 :> x[s]) ELSE Pow4(E,m,Every(x,N,4,s),d)]
   IN TLCEval([k \in 0..N-1 |-> LET j == k % m t == k \div m a == y[0][j] b == Times(E,Omega(E,j,N,d),y[1][j]) c == Times(E,Omega(E,2*j,N,d),y[2][j]) e == Times(E,Omega(E,3*j,N,d),y[3][j])
        IN CASE t = 0 -> Plus(E,Plus(E,a,c),Plus(E,b,e)) [] t = 1 -> Plus(E,Minus(E,a,c),Times(E,i,Minus(E,b,e)))
             [] t = 2 -> Minus(E,Plus(E,a,c),Plus(E,b,e)) [] t = 3 -> Minus(E,Minus(E,a,c),Times(E,i,Minus(E,b,e)))])
Comp(E,t,x,d) == LET N == t[2] N1 == t[3][2] N2 == t[4][2]
       z == TLCEval([j1 \in 0..N1-1 |-> LET r == Run(E,t[4],Every(x,N,N1,j1),d) IN TLCEval([k2 \in 0..N2-1 |-> IF Mistake = "twiddle" THEN r[k2] ELSE Times(E,r[k2],Omega(E,j1*k2,N,d))])])
       c == TLCEval([k2 \in 0..N2-1 |-> Run(E,t[3],TLCEval([j1 \in 0..N1-1 |-> z[j1][k2]]),d)])
   IN TLCEval([k \in 0..N-1 |-> IF Mistake = "order" THEN c[k \div N1][k % N1] ELSE c[k % N2][k \div N2]])
(* the prime's lines but the first, in the order of the powers of a generator, are a cyclic convolution *)
Rader(E,t,x,d) == LET p == t[2] a == PrimitiveRoot(p) b == PowMod(a,p-2,p)
       in == TLCEval([k \in 0..p-2 |-> x[PowMod(b,k,p)]])
       f == Run(E,t[3],in,d)
       w == Run(E,<<"dft",p-1>>,TLCEval([k \in 0..p-2 |-> Omega(E,PowMod(a,k,p),p,d)]),d)
       s == Run(E,t[3],TLCEval([k \in 0..p-2 |-> Times(E,f[k],w[k])]),-d)
       inv == IF Mistake = "norm" THEN 1 ELSE Inverse(E,p-1)
       at == TLCEval([m \in 0..p-2 |-> PowMod(a,m,p)])
   IN TLCEval([k \in 0..p-1 |-> IF k = 0 THEN Plus(E,x[0],SumTo(E,in,p-1)) ELSE LET m == CHOOSE m \in 0..p-2 : at[m] = k IN Plus(E,x[0],Times(E,s[m],inv))])
Run(E,t,x,d) == CASE t[1] = "dft"  -> TLCEval([k \in 0..t[2]-1 |-> SumTo(E,TLCEval([j \in 0..t[2]-1 |-> Times(E,x[j],Omega(E,j*k,t[2],d))]),t[2])])
                  [] t[1] = "pow2" -> Pow2(E,t[2],x,d)
                  [] t[1] = "pow3" -> Pow3(E,t[2],x,d)
                  [] t[1] = "pow4" -> Pow4(E,t[2],x,d)
                  [] t[1] = "comp" -> Comp(E,t,x,d)
                  [] t[1] = "rader" -> Rader(E,t,x,d)
Init == /\ n \in Lengths /\ tree = <<>> /\ field = [q |-> 0] /\ pos = 0 /\ dir \in {-1,1}
Plan == /\ tree = <<>> /\ tree' \in Trees(n) /\ field' = FieldFor(Need(tree')) /\ UNCHANGED <<n,pos,dir>>
Shift == /\ tree # <<>> /\ pos < n-1 /\ pos' = pos+1 /\ UNCHANGED <<n,tree,field,dir>>
Next == Plan \/ Shift
Spec == Init /\ [][Next]_vars
One == [j \in 0..n-1 |-> IF j = pos THEN 1 ELSE 0]
Fourier == tree # <<>> => LET y == Run(field,tree,One,dir) IN \A k \in 0..n-1 : y[k] = Omega(field,pos*k,n,dir)
=============================================================================
