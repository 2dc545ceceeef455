-------------------------------- MODULE Tick --------------------------------
(***************************************************************************)
(* Price ticks.  With precision k, a price is on a tick iff its raw value  *)
(* has at most k+1 significant decimal digits; raw values of at most k+1   *)
(* digits are all ticks.  Ticks are numbered so that consecutive ticks     *)
(* have consecutive indices and index 0 is 10^k raw, the lowest tick that  *)
(* the exchange names.                                                     *)
(***************************************************************************)
EXTENDS Dec, SequencesExt

TChar(p)  == BDigits(p) - 1               \* p # 0
TGapAt(p, k) == BPow10(TChar(p) - k)      \* distance to the next tick above

\* Highest tick <= p.
TDown(p, k) ==
    IF ~IsNum(p) THEN p ELSE IF IsZ(p) THEN Err
    ELSE LET d == TChar(p) - k IN
         IF d > 0 THEN BMul(BQuo(p, BPow10(d)), BPow10(d)) ELSE p

IsTick(p, k) == TDown(p, k) = p

\* Next tick strictly above p.
TNext(p, k) == LET t == TDown(p, k) IN
               IF ~IsNum(t) THEN t ELSE DAdd(t, TGapAt(t, k))

\* Lowest tick >= p.
TUp(p, k) == LET t == TDown(p, k) IN
             IF ~IsNum(t) THEN t ELSE IF t = p THEN t ELSE TNext(t, k)

IsPow10(p) == IsNum(p) /\ p[1] > 0 /\ p = BPow10(TChar(p))

\* Next tick strictly below p.
TPrev(p, k) ==
    LET t == TDown(p, k) IN
    IF ~IsNum(t) THEN t
    ELSE IF t # p THEN t
    ELSE DSub(p, BPow10(IF IsPow10(p) THEN TChar(p) - k - 1 ELSE TChar(p) - k))

TLowest(k)  == BPow10(k)
THighest(k) == TDown(BSub(BPow2(300), One), k)

(***************************************************************************)
(* Indices, which are numbers themselves.  Prices below 10^k raw have      *)
(* negative indices: TIndex numbers them as the exchange does, with gaps;  *)
(* TPos numbers all ticks consecutively.                                   *)
(***************************************************************************)
LOCAL Nine(k) == BMul(BInt(9), BPow10(k))

TIndex(p, k) ==
    LET l == TChar(p)
        m == IF l - k > 0 THEN BQuo(p, BPow10(l - k)) ELSE p
    IN  BAdd(BMul(BInt(l - k), Nine(k)), BSub(m, BPow10(k)))

TFromIndex(i, k) ==
    LET q == BQuo(i, Nine(k))             \* truncated towards zero
        r == BSub(i, BMul(q, Nine(k)))
        l == BToInt(q)
        t == BAdd(BPow10(k), r)
    IN  IF l > 0 THEN BMul(t, BPow10(l)) ELSE t

TPos(p, k) == IF BLt(p, TLowest(k)) THEN BSub(p, TLowest(k)) ELSE TIndex(p, k)
TAt(i, k)  == IF i[1] < 0 THEN BAdd(i, TLowest(k)) ELSE TFromIndex(i, k)

\* Round to a tick, half to the tick with even index.
TRound(p, k) ==
    LET t == TDown(p, k) IN
    IF ~IsNum(t) THEN t ELSE IF t = p THEN p
    ELSE TFromIndex(BMul(BQuo(BAdd(TIndex(t, k), One), BInt(2)), BInt(2)), k)

\* The least x in 0..n with W(x), if W holds for all numbers after it; n + 1
\* if there is none.
TBisect(W(_), n) ==
    LET step(r, x) == IF BGe(r[1], r[2]) THEN r
                      ELSE LET h == BQuo(BAdd(r[1], r[2]), BInt(2)) IN
                           IF W(h) THEN <<r[1], h>> ELSE <<BAdd(h, One), r[2]>>
    IN  FoldLeft(step, <<Zero, BAdd(n, One)>>, [x \in 1..80 |-> x])[1]
=============================================================================
