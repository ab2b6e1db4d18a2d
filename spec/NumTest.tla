------------------------------ MODULE NumTest ------------------------------
\* The Num override agrees with TLC's own integer arithmetic.
EXTENDS Num, TLC
R == -7..7
Agree == \A a, b \in R :
   /\ NEq(NAdd(a,b), a+b) /\ NEq(NSub(a,b), a-b) /\ NEq(NMul(a,b), a*b)
   /\ (b # 0 => NEq(NMul(NDiv(a,b), b), a) \/ Near(NMul(NDiv(a,b), b), a))
   /\ (b = 0 => ~NIsNum(NDiv(a,b)))
   /\ (NLt(a,b) <=> a < b) /\ (NLe(a,b) <=> a <= b) /\ (NEq(a,b) <=> a = b)
Funcs ==
   /\ \A a \in 0..40 : NEq(NSqrt(a*a), a)
   /\ \A a \in -20..20 : Near(NLn(NExp(a)), a)
   /\ Near(NExp(1), "2.718281828459045")
   /\ \A a \in -9..9 : NTrunc(NDiv(a, 2)) = IF a >= 0 THEN a \div 2 ELSE -((-a) \div 2)
   /\ NRound("2.5") = 2 /\ NRound("3.5") = 4 /\ NRound("-1.2") = -1
   /\ ~NIsNum("nan") /\ ~NIsNum(NAdd("nan",1)) /\ ~NEq("nan","nan")
   /\ NEq(NSum(<<1,2,"0.5">>), "3.5") /\ NEq(NDot(<<1,2>>,<<"3","0.5">>), 4)
   /\ SeqNear(<<1,"2.0000000001">>, <<"1",2>>) /\ ~SeqNear(<<1,2>>,<<1>>) /\ ~SeqNear(<<1>>,<<"1.0001">>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Inv == Agree /\ Funcs
=============================================================================
