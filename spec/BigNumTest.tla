----------------------------- MODULE BigNumTest -----------------------------
\* Prints the results of every BigNum operation on a fixed family of values.
\* Run once with the Java class on TLC's classpath and once without: the two
\* outputs must be equal (bin/check does this in its self test).
EXTENDS BigNum, TLC

RECURSIVE Gen(_, _)
Gen(seed, n) == IF n = 0 THEN <<>>
                ELSE <<(seed * 7919 + 13) % 10000>> \o Gen((seed * 31 + 17) % 65536, n-1)
Num(s, n) == LET m == Gen(s, n) IN IF m[n] = 0 THEN <<1>> \o [m EXCEPT ![n] = 1] ELSE <<1>> \o m
Vals == <<Zero, One, BInt(-1), BInt(9999), BInt(10000), BInt(-123456789), BInt(2147483647),
          Ovf, Err, BPow10(18), BPow10(37), BPow2(63), BPow2(255), BNeg(BPow2(100))>>
        \o [i \in 1..12 |-> Num(i * 37, i)] \o [i \in 1..6 |-> BNeg(Num(i * 91, 3*i))]
        \o <<<<1,0,0,1>>, <<1,9999,9999,9999,9999>>, <<1,0,0,0,0,0,5>>>>

Two(a, b) == <<BAdd(a,b), BSub(a,b), BMul(a,b), BQuo(a,b), BMin(a,b), BMax(a,b),
               IF IsNum(a) /\ IsNum(b) THEN <<BCmp(a,b), BLt(a,b), BLe(a,b), BGt(a,b), BGe(a,b)>> ELSE <<>> >>
OneArg(a) == <<BNeg(a), BAbs(a), BBitsOver(a, 64), BLim(a, 100), BSign(a),
            IF IsNum(a) THEN <<BDigits(a), BIsOdd(a)>> ELSE <<>> >>

ASSUME \A i \in 1..Len(Vals) : PrintT(<<i, OneArg(Vals[i])>>)
ASSUME \A i, j \in 1..Len(Vals) : PrintT(<<i, j, Two(Vals[i], Vals[j])>>)
ASSUME \A n \in -2..40 : PrintT(<<n, BPow10(n), IF n >= 0 THEN BPow2(n) ELSE 0>>)
ASSUME \A n \in {0, 1, -1, 10000, 99999, 123456789, -2147483647} : PrintT(<<BInt(n), BToInt(BInt(n))>>)
=============================================================================
