-------------------------------- MODULE Dec ---------------------------------
(***************************************************************************)
(* The 18-digit decimals of the exchange.  A decimal d is represented by   *)
(* the big integer d * 10^18; a "Dec" below is such a raw integer, an      *)
(* "Int" is a plain one.  Rounding is part of the protocol (it decides who *)
(* gains the last unit), so every operator says how it rounds.             *)
(* Results of more than 315 bits (Dec) or 256 bits (Int) are Ovf.          *)
(***************************************************************************)
EXTENDS BigNum

PREC      == BPow10(18)
PREC2     == BPow10(36)
HALFPREC  == BQuo(PREC, <<1, 2>>)
DecOne    == PREC
DecFour   == BMul(<<1, 4>>, PREC)
DecSmallest == One

DLim(x) == BLim(x, 315)
ILim(x) == BLim(x, 256)

IsPos(a)  == IsNum(a) /\ a[1] > 0
IsZ(a)    == a = Zero

\* ---------------------------------------------------- Int operations
IAdd(a, b) == LET r == BAdd(a, b) IN IF BBitsOver(r, 256) THEN Err ELSE r
ISub(a, b) == LET r == BSub(a, b) IN IF BBitsOver(r, 256) THEN Err ELSE r

\* ---------------------------------------------------- rounding of x / 10^18
ChopTrunc(x) == BQuo(x, PREC)

ChopRound(x) ==            \* half to even, on the magnitude
    IF ~IsNum(x) THEN x
    ELSE LET m == BAbs(x)
             q == BQuo(m, PREC)
             r == BSub(m, BMul(q, PREC))
             c == BCmp(r, HALFPREC)
             z == IF c > 0 \/ (c = 0 /\ BIsOdd(q)) THEN BAdd(q, One) ELSE q
         IN  IF x[1] < 0 THEN BNeg(z) ELSE z

ChopUp(x) ==               \* away from zero for positive x, truncation else
    IF ~IsNum(x) THEN x
    ELSE LET q == BQuo(x, PREC)
         IN  IF x[1] > 0 /\ BMul(q, PREC) # x THEN BAdd(q, One) ELSE q

\* ---------------------------------------------------- Dec operations
D(i)          == BMul(i, PREC)                       \* Int -> Dec
DAdd(a, b)    == DLim(BAdd(a, b))
DSub(a, b)    == DLim(BSub(a, b))
DMul(a, b)    == DLim(ChopRound(BMul(a, b)))
DMulTrunc(a, b) == DLim(ChopTrunc(BMul(a, b)))
DMulInt(a, i) == DLim(BMul(a, i))
DQuo(a, b)    == DLim(ChopRound(BQuo(BMul(a, PREC2), b)))
DQuoTrunc(a, b) == DLim(ChopTrunc(BQuo(BMul(a, PREC2), b)))
DQuoUp(a, b)  == DLim(ChopUp(BQuo(BMul(a, PREC2), b)))
DQuoInt(a, n) == BQuo(a, BInt(n))                    \* truncates the raw value
DTruncInt(a)  == ILim(ChopTrunc(a))                  \* Dec -> Int
DCeil(a)      ==                                     \* Dec -> Dec
    IF ~IsNum(a) THEN a
    ELSE LET q == BQuo(a, PREC) IN
         IF a[1] <= 0 \/ BMul(q, PREC) = a THEN BMul(q, PREC)
         ELSE IF BBitsOver(a, 314) THEN Ovf
         ELSE BMul(BAdd(q, One), PREC)
DCeilInt(a)   == DTruncInt(DCeil(a))                 \* Dec -> Int
DInv(a)       == DQuo(DecOne, a)
DSquare(a)    == DMul(DMul(a, a), DecOne)

(***************************************************************************)
(* Square root: Newton's method from 1, until the correction is at most    *)
(* 10^-18 (or 300 steps), with the roundings of the library.  An overflow  *)
(* inside is reported as an ordinary error there, hence Err.               *)
(***************************************************************************)
RECURSIVE LOCAL_Newton(_, _, _)
LOCAL_Newton(d, g, n) ==
    IF n = 0 THEN g
    ELSE LET prev  == IF IsZ(g) THEN DecSmallest ELSE g
             delta == DQuoInt(DSub(DQuo(d, prev), g), 2)
             g2    == DAdd(g, delta)
         IN  IF ~IsNum(g2) THEN Err
             ELSE IF BLe(BAbs(delta), DecSmallest) THEN g2
             ELSE LOCAL_Newton(d, g2, n - 1)

DSqrt(d) ==
    IF ~IsNum(d) THEN d
    ELSE IF IsZ(d) \/ d = DecOne THEN d
    ELSE IF d[1] < 0
         THEN LET r == LOCAL_Newton(BNeg(d), DecOne, 300) IN BNeg(r)
    ELSE LOCAL_Newton(d, DecOne, 300)
=============================================================================
