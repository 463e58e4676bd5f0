---------------------------------- MODULE Big ----------------------------------
(* Natural numbers beyond the 32 bits of TLC: sequences of digits of base 10^4, *)
(* least significant first, no leading zeros.                                   *)
EXTENDS Integers, Sequences
Base == 10000
RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base)
Digit(x,i) == IF i <= Len(x) THEN x[i] ELSE 0
RECURSIVE AddC(_,_,_,_)
AddC(x,y,i,c) == IF i > Len(x) /\ i > Len(y) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                 ELSE LET s == Digit(x,i) + Digit(y,i) + c IN <<s % Base>> \o AddC(x,y,i+1,s \div Base)
BAdd(x,y) == AddC(x,y,1,0)
RECURSIVE ScaleC(_,_,_,_)
ScaleC(x,m,i,c) == IF i > Len(x) THEN Big(c) ELSE LET s == x[i]*m + c IN <<s % Base>> \o ScaleC(x,m,i+1,s \div Base)
RECURSIVE BMul(_,_)
BMul(x,y) == IF x = <<>> \/ y = <<>> THEN <<>>
             ELSE LET rest == BMul(x,Tail(y)) IN BAdd(IF Head(y) = 0 THEN <<>> ELSE ScaleC(x,Head(y),1,0), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
RECURSIVE LessAt(_,_,_)
LessAt(x,y,i) == IF i = 0 THEN FALSE ELSE IF x[i] # y[i] THEN x[i] < y[i] ELSE LessAt(x,y,i-1)
BLess(x,y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE LessAt(x,y,Len(x))
BLeq(x,y) == ~BLess(y,x)
================================================================================
