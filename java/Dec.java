// Accelerator for spec/Dec.tla (see BigNum.java); DecTest.tla compares both.
import java.math.BigInteger;
import tlc2.value.impl.*;

public final class Dec {
  private static final BigInteger PREC = BigInteger.TEN.pow(18), PREC2 = BigInteger.TEN.pow(36), HALF = PREC.shiftRight(1);
  private static final BigInteger TWO = BigInteger.valueOf(2), FOUR = BigInteger.valueOf(4);

  // An aborted computation.
  private static final class Abort extends RuntimeException {
    final Value v;
    Abort(Value v) { super(null, null, false, false); this.v = v; }
  }
  private static BigInteger n(Value v) { BigInteger x = BigNum.num(v); if (x == null) throw new Abort(v); return x; }
  private static BigInteger lim(BigInteger x, int bits) { if (x.abs().bitLength() > bits) throw new Abort(BigNum.OVF); return x; }
  private static BigInteger nz(BigInteger x) { if (x.signum() == 0) throw new Abort(BigNum.ERR); return x; }

  private static BigInteger round(BigInteger x) {
    BigInteger[] qr = x.abs().divideAndRemainder(PREC);
    int c = qr[1].compareTo(HALF);
    BigInteger z = c > 0 || (c == 0 && qr[0].testBit(0)) ? qr[0].add(BigInteger.ONE) : qr[0];
    return x.signum() < 0 ? z.negate() : z;
  }
  private static BigInteger up(BigInteger x) {
    BigInteger[] qr = x.divideAndRemainder(PREC);
    return x.signum() > 0 && qr[1].signum() != 0 ? qr[0].add(BigInteger.ONE) : qr[0];
  }
  private static BigInteger ceil(BigInteger a) {
    BigInteger[] qr = a.divideAndRemainder(PREC);
    if (a.signum() <= 0 || qr[1].signum() == 0) return a.subtract(qr[1]);
    lim(a, 314);
    return qr[0].add(BigInteger.ONE).multiply(PREC);
  }
  private static BigInteger quo(BigInteger a, BigInteger b) { return lim(round(a.multiply(PREC2).divide(nz(b))), 315); }

  private static BigInteger newton(BigInteger d) {
    BigInteger g = PREC;
    try {
      for (int i = 0; i < 300; i++) {
        BigInteger prev = g.signum() == 0 ? BigInteger.ONE : g;
        BigInteger delta = lim(quo(d, prev).subtract(g), 315).divide(TWO);
        g = lim(g.add(delta), 315);
        if (delta.abs().compareTo(BigInteger.ONE) <= 0) return g;
      }
    } catch (Abort e) {
      throw new Abort(BigNum.ERR);
    }
    return g;
  }

  private interface F { BigInteger f(); }
  private static Value run(F f) { try { return BigNum.mk(f.f()); } catch (Abort e) { return e.v; } }

  public static Value ChopTrunc(Value x) { return run(() -> n(x).divide(PREC)); }
  public static Value ChopRound(Value x) { return run(() -> round(n(x))); }
  public static Value ChopUp(Value x) { return run(() -> up(n(x))); }
  public static Value D(Value x) { return run(() -> n(x).multiply(PREC)); }
  public static Value IAdd(Value a, Value b) { return run(() -> { BigInteger r = n(a).add(n(b)); if (r.abs().bitLength() > 256) throw new Abort(BigNum.ERR); return r; }); }
  public static Value ISub(Value a, Value b) { return run(() -> { BigInteger r = n(a).subtract(n(b)); if (r.abs().bitLength() > 256) throw new Abort(BigNum.ERR); return r; }); }
  public static Value DAdd(Value a, Value b) { return run(() -> lim(n(a).add(n(b)), 315)); }
  public static Value DSub(Value a, Value b) { return run(() -> lim(n(a).subtract(n(b)), 315)); }
  public static Value DMul(Value a, Value b) { return run(() -> lim(round(n(a).multiply(n(b))), 315)); }
  public static Value DMulTrunc(Value a, Value b) { return run(() -> lim(n(a).multiply(n(b)).divide(PREC), 315)); }
  public static Value DMulInt(Value a, Value b) { return run(() -> lim(n(a).multiply(n(b)), 315)); }
  public static Value DQuo(Value a, Value b) { return run(() -> { BigInteger x = n(a), y = n(b); return quo(x, y); }); }
  public static Value DQuoTrunc(Value a, Value b) { return run(() -> { BigInteger x = n(a), y = nz(n(b)); return lim(x.multiply(PREC2).divide(y).divide(PREC), 315); }); }
  public static Value DQuoUp(Value a, Value b) { return run(() -> { BigInteger x = n(a), y = nz(n(b)); return lim(up(x.multiply(PREC2).divide(y)), 315); }); }
  public static Value DTruncInt(Value a) { return run(() -> lim(n(a).divide(PREC), 256)); }
  public static Value DCeil(Value a) { return run(() -> ceil(n(a))); }
  public static Value DCeilInt(Value a) { return run(() -> lim(ceil(n(a)).divide(PREC), 256)); }
  public static Value DSqrt(Value d) {
    return run(() -> {
      BigInteger x = n(d);
      if (x.signum() == 0 || x.equals(PREC)) return x;
      return x.signum() < 0 ? newton(x.negate()).negate() : newton(x);
    });
  }
}
