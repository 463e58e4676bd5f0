------------------------------- MODULE Field --------------------------------
(* Exact roots of unity: a finite field with q elements, q one more than a       *)
(* multiple of L, has elements of order L.  Algorithms that are linear and use   *)
(* roots of unity only can be followed in it without rounding.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a,b) == (a \div Gcd(a,b)) * b
IsPrime(p) == p > 1 /\ \A d \in 2..p-1 : d*d > p \/ p % d # 0
RECURSIVE PowMod(_,_,_)
PowMod(b,e,q) == IF e = 0 THEN 1 ELSE LET h == PowMod(b, e \div 2, q) s == (h*h) % q IN IF e % 2 = 1 THEN (s*b) % q ELSE s
RECURSIVE FieldSize(_,_)
FieldSize(L,k) == IF IsPrime(L*k+1) THEN L*k+1 ELSE FieldSize(L,k+1)
HasOrder(g,L,q) == PowMod(g,L,q) = 1 /\ \A r \in 2..L : (L % r = 0 /\ IsPrime(r)) => PowMod(g, L \div r, q) # 1
(* the least element that generates all others modulo the prime p *)
PrimitiveRoot(p) == CHOOSE a \in 1..p-1 : HasOrder(a,p-1,p) /\ \A b \in 1..a-1 : ~HasOrder(b,p-1,p)
(* not too small, so that different sums seldom coincide *)
FieldFor(L) == LET q == FieldSize(L, 1 + (2000 \div L))
                   g == LET c == CHOOSE c \in 2..q-1 : HasOrder(PowMod(c,(q-1) \div L,q),L,q) IN PowMod(c,(q-1) \div L,q)
                   P == TLCEval([e \in 0..L-1 |-> PowMod(g,e,q)])
               IN [q |-> q, L |-> L, G |-> P]
(* exp(dir 2 pi i power/N) *)
Omega(E,power,N,dir) == E.G[(dir * (power % N) * (E.L \div N)) % E.L]
Plus(E,a,b) == (a+b) % E.q
Minus(E,a,b) == (a-b) % E.q
Times(E,a,b) == (a*b) % E.q
Inverse(E,a) == PowMod(a, E.q-2, E.q)
RECURSIVE SumTo(_,_,_)
SumTo(E,f,n) == IF n = 0 THEN 0 ELSE Plus(E, f[n-1], SumTo(E,f,n-1))
=============================================================================
