------------------------------ MODULE R2rKernel -----------------------------
(* How the sine and cosine transforms of one direction are made from a complex   *)
(* transform of a longer line: the line is extended by symmetry, transformed     *)
(* from real to complex (or back), and some of the result is kept.  Numbers are  *)
(* pairs <<z, conjugate of z>> in a finite field, so nothing is rounded.  The    *)
(* result is the sum that R2rResponse (which judges what the code computes)      *)
(* takes for the kernel, and backward after forward is the factor that is        *)
(* promised times the line.                                                      *)
EXTENDS Field, R2rResponse
CONSTANTS MaxLength, Mistake
VARIABLES kind, n, bk, pos, field
vars == <<kind,n,bk,pos,field>>
Kinds == {"cos","sin","cos1"}
Extended(k,len) == IF k = "cos1" THEN 4*(len-1) ELSE 4*len
(* pairs *)
Zero == <<0,0>>
Real(a) == <<a,a>>
PPlus(E,a,b) == <<Plus(E,a[1],b[1]), Plus(E,a[2],b[2])>>
PTimes(E,a,b) == <<Times(E,a[1],b[1]), Times(E,a[2],b[2])>>
Conj(a) == <<a[2],a[1]>>
Root(E,e,M) == <<Omega(E,e,M,1), Omega(E,e,M,-1)>>
Neg(E,a) == <<Minus(E,0,a[1]), Minus(E,0,a[2])>>
OneHalf(E) == Inverse(E,2)
Re(E,a) == Real(Times(E, OneHalf(E), Plus(E,a[1],a[2])))
Im(E,a) == LET i == Root(E,1,4) IN Real(Times(E, OneHalf(E), Times(E, Minus(E,a[1],a[2]), i[2])))   \* 1/i is the conjugate of i
MinusI(E,a) == PTimes(E, Conj(Root(E,1,4)), a)
RECURSIVE PSum(_,_,_)
PSum(E,f,m) == IF m = 0 THEN Zero ELSE PPlus(E, f[m-1], PSum(E,f,m-1))
(* the complex transform: half of the frequencies of a real line, and the line of half of the frequencies *)
ToComplex(E,s,M) == TLCEval([k \in 0..M \div 2 |-> PSum(E, TLCEval([j \in 0..M-1 |-> PTimes(E, s[j], Conj(Root(E,j*k,M)))]), M)])
ToReal(E,h,M) == LET f == TLCEval([k \in 0..M-1 |-> IF k = 0 \/ 2*k = M THEN Re(E,h[k]) ELSE IF 2*k < M THEN h[k] ELSE Conj(h[M-k])])
                 IN TLCEval([j \in 0..M-1 |-> PSum(E, TLCEval([k \in 0..M-1 |-> PTimes(E, f[k], Root(E,j*k,M))]), M)])
PreForward(E,k,len,x) == LET M == Extended(k,len) IN TLCEval([j \in 0..M-1 |->
   CASE k = "cos" -> IF j % 2 = 0 THEN Zero ELSE IF j < 2*len THEN x[j \div 2] ELSE x[(M-j) \div 2]
     [] k = "sin" -> IF j % 2 = 0 THEN Zero ELSE IF j < 2*len THEN x[j \div 2] ELSE IF Mistake = "even" THEN x[(M-j) \div 2] ELSE Neg(E,x[(M-j) \div 2])
     [] k = "cos1" -> IF j % 2 = 1 THEN Zero ELSE IF j < 2*(len-1) THEN x[j \div 2] ELSE x[(M-j) \div 2]])
PostForward(E,k,len,h) == TLCEval([j \in 0..len-1 |-> IF k = "sin" THEN Neg(E, Im(E, h[j+1])) ELSE Re(E,h[j])])
PreBackward(E,k,len,x) == TLCEval([j \in 0..Extended(k,len) \div 2 |->
   CASE k = "cos" -> IF j < len THEN x[j] ELSE IF j = len THEN Zero ELSE Neg(E, x[2*len-j])
     [] k = "sin" -> IF j = 0 \/ j = 2*len THEN Zero ELSE IF j <= len THEN MinusI(E,x[j-1]) ELSE MinusI(E,x[2*len-j-1])
     [] k = "cos1" -> IF j < len THEN x[j] ELSE x[2*(len-1)-j]])
PostBackward(k,len,s) == TLCEval([j \in 0..len-1 |-> IF k = "cos1" THEN s[2*j] ELSE s[IF Mistake = "shift" THEN 2*j ELSE 2*j+1]])
Forward(E,k,len,x) == PostForward(E,k,len,ToComplex(E,PreForward(E,k,len,x),Extended(k,len)))
Backward(E,k,len,x) == PostBackward(k,len,ToReal(E,PreBackward(E,k,len,x),Extended(k,len)))
Init == kind \in Kinds /\ n \in (IF kind = "cos1" THEN 2 ELSE 1)..MaxLength /\ bk \in {0,1} /\ pos = 0 /\ field = FieldFor(Extended(kind,n))
Next == pos < n-1 /\ pos' = pos+1 /\ UNCHANGED <<kind,n,bk,field>>
Spec == Init /\ [][Next]_vars
One == [j \in 0..n-1 |-> IF j = pos THEN Real(1) ELSE Zero]
(* twice the (co)sine of the angle R2rResponse states: a root of unity and its conjugate *)
TwiceCos(E,a,P) == PPlus(E, Root(E,a,P), Conj(Root(E,a,P)))
Kernel(E,k,b,len,c,x) == LET P == Period(k,len) a == Turns(k,b,c,x) % P
                             t == IF Sine(k) THEN TwiceCos(E, (a + 3*(P \div 4)) % P, P) ELSE TwiceCos(E,a,P)
                         IN Real(Times(E, Times(E, Weight(k,b,len,c), OneHalf(E)), t[1]))
(* the weight leaves a factor to the backward transform: what it computes is relative to the inverse *)
Factor(b) == IF b = 1 THEN 2 ELSE 1
KernelOk == LET y == IF bk = 0 THEN Forward(field,kind,n,One) ELSE Backward(field,kind,n,One)
            IN \A x \in 0..n-1 : y[x] = PTimes(field, Real(Factor(bk)), Kernel(field,kind,bk,n,pos,x))
InverseOk == bk = 0 => LET y == Backward(field,kind,n,Forward(field,kind,n,One)) IN \A x \in 0..n-1 : y[x] = PTimes(field, Real(Extended(kind,n) % field.q), One[x])
=============================================================================
