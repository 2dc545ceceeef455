------------------------------ MODULE DecTest -------------------------------
\* The Java accelerator of Dec against its TLA+ definitions, as BigNumTest.
EXTENDS Dec, TLC

RECURSIVE Gen(_, _)
Gen(seed, n) == IF n = 0 THEN <<>>
                ELSE <<(seed * 7919 + 13) % 10000>> \o Gen((seed * 31 + 17) % 65536, n-1)
Num(s, n) == LET m == Gen(s, n) IN IF m[n] = 0 THEN <<1>> \o [m EXCEPT ![n] = 1] ELSE <<1>> \o m
Vals == <<Zero, One, BInt(-1), PREC, BNeg(PREC), BAdd(PREC, One), HALFPREC, BMul(BInt(3), HALFPREC), BMul(BInt(5), HALFPREC),
          BNeg(BMul(BInt(5), HALFPREC)), Ovf, Err, BPow10(40), BPow2(255), BSub(BPow2(256), One), BPow2(256), BPow2(314), BSub(BPow2(315), One), BNeg(BPow2(314))>>
        \o [i \in 1..9 |-> Num(i * 37, 2*i)] \o [i \in 1..4 |-> BNeg(Num(i * 91, 3*i))]

Two(a, b) == <<IAdd(a, b), ISub(a, b), DAdd(a, b), DSub(a, b), DMul(a, b), DMulTrunc(a, b), DMulInt(a, b), DQuo(a, b), DQuoTrunc(a, b), DQuoUp(a, b)>>
OneArg(a) == <<ChopTrunc(a), ChopRound(a), ChopUp(a), D(a), DTruncInt(a), DCeil(a), DCeilInt(a), DSqrt(a), DSquare(a)>>

ASSUME \A i \in 1..Len(Vals) : PrintT(<<i, OneArg(Vals[i])>>)
ASSUME \A i, j \in 1..Len(Vals) : PrintT(<<i, j, Two(Vals[i], Vals[j])>>)
=============================================================================
