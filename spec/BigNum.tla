------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Unbounded integers for TLC.                                             *)
(*                                                                         *)
(* TLC's own integers are 32 bit, and the amounts, prices and pool shares  *)
(* of the exchange are integers of up to 315 bits, so the specification    *)
(* computes with explicit big integers.  A big integer is a sequence       *)
(*                                                                         *)
(*     << sign, limb_1, limb_2, ..., limb_n >>                             *)
(*                                                                         *)
(* sign in {-1, 0, 1}, limbs little endian in base 10^4, the last limb not *)
(* 0, and <<0>> is zero.  The representation is canonical, so TLA+'s = is  *)
(* numeric equality.                                                       *)
(*                                                                         *)
(* Two further values model a computation the implementation aborts:       *)
(*     Ovf == <<2>>   "overflow" (LegacyDec/Int out of bounds)             *)
(*     Err == <<3>>   any other arithmetic panic (division by zero, ...)   *)
(* Every operation propagates the first such argument.                     *)
(*                                                                         *)
(* All operators below are ordinary TLA+ definitions.  The Java class      *)
(* BigNum (java/BigNum.java) overrides them by java.math.BigInteger for    *)
(* speed only; BigNumTest.tla compares the two.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL BASE == 10000

Ovf == <<2>>
Err == <<3>>
IsNum(a) == a[1] < 2          \* an actual number

Zero == <<0>>
One  == <<1, 1>>

\* ---------------------------------------------------------------- limbs
RECURSIVE LOCAL_Strip(_)
LOCAL_Strip(m) == IF m = <<>> THEN m
                  ELSE IF m[Len(m)] = 0 THEN LOCAL_Strip(SubSeq(m, 1, Len(m)-1))
                  ELSE m
LOCAL LimbAt(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE LOCAL_AddL(_, _, _, _)
LOCAL_AddL(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b)
    THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET s == LimbAt(a, i) + LimbAt(b, i) + c
         IN  <<s % BASE>> \o LOCAL_AddL(a, b, i+1, s \div BASE)

RECURSIVE LOCAL_SubL(_, _, _, _)        \* a >= b
LOCAL_SubL(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == LimbAt(a, i) - LimbAt(b, i) - c
         IN  <<IF s < 0 THEN s + BASE ELSE s>> \o
             LOCAL_SubL(a, b, i+1, IF s < 0 THEN 1 ELSE 0)

RECURSIVE LOCAL_CmpL(_, _, _)
LOCAL_CmpL(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE LOCAL_CmpL(a, b, i-1)
LOCAL CmpL(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
                    ELSE LOCAL_CmpL(a, b, Len(a))

RECURSIVE LOCAL_MulD(_, _, _, _)        \* limbs times one digit d < BASE
LOCAL_MulD(a, d, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET s == a[i] * d + c
         IN  <<s % BASE>> \o LOCAL_MulD(a, d, i+1, s \div BASE)

RECURSIVE LOCAL_MulL(_, _, _)
LOCAL_MulL(a, b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LOCAL_AddL(LOCAL_MulD(a, b[i], 1, 0), <<0>> \o LOCAL_MulL(a, b, i+1), 1, 0)

RECURSIVE LOCAL_Digit(_, _, _, _)       \* largest q in lo..hi with b*q <= a
LOCAL_Digit(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF CmpL(LOCAL_Strip(LOCAL_MulD(b, m, 1, 0)), a) <= 0
             THEN LOCAL_Digit(a, b, m, hi) ELSE LOCAL_Digit(a, b, lo, m-1)

RECURSIVE LOCAL_DivL(_, _, _, _, _)     \* schoolbook long division
LOCAL_DivL(a, b, i, q, r) ==
    IF i = 0 THEN q
    ELSE LET r1 == LOCAL_Strip(<<a[i]>> \o r)
             d  == LOCAL_Digit(r1, b, 0, BASE-1)
             r2 == LOCAL_Strip(LOCAL_SubL(r1, LOCAL_Strip(LOCAL_MulD(b, d, 1, 0)), 1, 0))
         IN  LOCAL_DivL(a, b, i-1, <<d>> \o q, r2)

LOCAL Mag(a) == Tail(a)
LOCAL Mk(s, m) == LET t == LOCAL_Strip(m) IN IF t = <<>> THEN Zero ELSE <<s>> \o t
LOCAL Bad(a, b) == IF ~IsNum(a) THEN a ELSE b

\* ------------------------------------------------------------ operations
BNeg(a) == IF ~IsNum(a) THEN a ELSE <<-a[1]>> \o Mag(a)
BAbs(a) == IF ~IsNum(a) THEN a ELSE IF a[1] < 0 THEN BNeg(a) ELSE a

BAdd(a, b) ==
    IF ~IsNum(a) \/ ~IsNum(b) THEN Bad(a, b)
    ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN Mk(a[1], LOCAL_AddL(Mag(a), Mag(b), 1, 0))
    ELSE IF CmpL(Mag(a), Mag(b)) >= 0 THEN Mk(a[1], LOCAL_SubL(Mag(a), Mag(b), 1, 0))
    ELSE Mk(b[1], LOCAL_SubL(Mag(b), Mag(a), 1, 0))

BSub(a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN Bad(a, b) ELSE BAdd(a, BNeg(b))

BMul(a, b) ==
    IF ~IsNum(a) \/ ~IsNum(b) THEN Bad(a, b)
    ELSE IF a[1] = 0 \/ b[1] = 0 THEN Zero
    ELSE Mk(a[1] * b[1], LOCAL_MulL(Mag(a), Mag(b), 1))

\* Quotient truncated towards zero.
BQuo(a, b) ==
    IF ~IsNum(a) \/ ~IsNum(b) THEN Bad(a, b)
    ELSE IF b[1] = 0 THEN Err
    ELSE IF a[1] = 0 THEN Zero
    ELSE Mk(a[1] * b[1], LOCAL_DivL(Mag(a), Mag(b), Len(a) - 1, <<>>, <<>>))

\* -1, 0 or 1; both arguments must be numbers.
BCmp(a, b) ==
    IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE a[1] * CmpL(Mag(a), Mag(b))

BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BGt(a, b) == BCmp(a, b) > 0
BGe(a, b) == BCmp(a, b) >= 0
BSign(a) == a[1]

\* From a TLC integer (|n| < 2^31).
BInt(n) == LET m == IF n < 0 THEN -n ELSE n
           IN  Mk(IF n < 0 THEN -1 ELSE 1,
                  <<m % BASE, (m \div BASE) % BASE, m \div (BASE * BASE)>>)

\* To a TLC integer; the caller guarantees the range.
BToInt(a) == LET m == Mag(a) IN
             a[1] * (LimbAt(m, 1) + LimbAt(m, 2) * BASE + LimbAt(m, 3) * BASE * BASE)

\* 10^n, and 1 for n <= 0 (as big.Int.Exp with a nil modulus).
BPow10(n) ==
    IF n <= 0 THEN One
    ELSE <<1>> \o [i \in 1..((n \div 4) + 1) |->
                     IF i <= n \div 4 THEN 0
                     ELSE CASE n % 4 = 0 -> 1 [] n % 4 = 1 -> 10
                            [] n % 4 = 2 -> 100 [] OTHER -> 1000]

\* Number of decimal digits of |a|; 1 for zero.
BDigits(a) ==
    IF a[1] = 0 THEN 1
    ELSE LET m == Mag(a)
             t == m[Len(m)]
         IN  4 * (Len(m) - 1) +
             (IF t >= 1000 THEN 4 ELSE IF t >= 100 THEN 3 ELSE IF t >= 10 THEN 2 ELSE 1)

RECURSIVE LOCAL_Pow2(_)
LOCAL_Pow2(n) == IF n = 0 THEN One ELSE BMul(<<1, 2>>, LOCAL_Pow2(n-1))
BPow2(n) == LOCAL_Pow2(n)

\* Bit length of |a| exceeds n?
BBitsOver(a, n) == IF ~IsNum(a) THEN FALSE ELSE BGe(BAbs(a), BPow2(n))

\* a if it has at most n bits, else Ovf.
BLim(a, n) == IF BBitsOver(a, n) THEN Ovf ELSE a

BIsOdd(a) == Len(a) > 1 /\ a[2] % 2 = 1

BMin(a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN Bad(a, b) ELSE IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF ~IsNum(a) \/ ~IsNum(b) THEN Bad(a, b) ELSE IF BGe(a, b) THEN a ELSE b
=============================================================================
