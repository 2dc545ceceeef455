// Accelerator for spec/BigNum.tla: TLC finds this class by the module's name
// and evaluates the operators below with java.math.BigInteger instead of by
// their TLA+ definitions. The definitions stay the reference; BigNumTest.tla
// compares both.
import java.math.BigInteger;
import tlc2.value.impl.*;

public final class BigNum {
  private static final BigInteger BASE = BigInteger.valueOf(10000);
  private static final BigInteger CHUNK = BigInteger.valueOf(1000000000000L); // 10^12 = 3 limbs
  private static final BigInteger LMAX = BigInteger.valueOf(Long.MAX_VALUE);
  static final BigInteger[] P10 = new BigInteger[700];
  static { P10[0] = BigInteger.ONE; for (int i = 1; i < P10.length; i++) P10[i] = P10[i-1].multiply(BigInteger.TEN); }
  private static final IntValue[] LIMB = new IntValue[10000];
  static { for (int i = 0; i < 10000; i++) LIMB[i] = IntValue.gen(i); }
  private static final IntValue M1 = IntValue.gen(-1);

  // A tuple that remembers the integer it stands for.
  static final class BN extends TupleValue {
    final BigInteger b;
    BN(Value[] e, BigInteger b) { super(e); this.b = b; }
  }

  static final Value OVF = new TupleValue(new Value[] { IntValue.gen(2) });
  static final Value ERR = new TupleValue(new Value[] { IntValue.gen(3) });

  // null if v is Ovf or Err
  static BigInteger num(Value v) {
    if (v instanceof BN) return ((BN) v).b;
    TupleValue t = (TupleValue) v.toTuple();
    Value[] e = t.elems;
    int s = ((IntValue) e[0]).val;
    if (s == 0) return BigInteger.ZERO;
    if (s > 1) return null;
    BigInteger r = BigInteger.ZERO;
    for (int i = e.length - 1; i >= 1; i--) {
      r = r.multiply(BASE).add(BigInteger.valueOf(((IntValue) e[i]).val));
    }
    return s < 0 ? r.negate() : r;
  }

  static Value mk(BigInteger b) {
    int s = b.signum();
    if (s == 0) return new BN(new Value[] { LIMB[0] }, b);
    BigInteger m = b.abs();
    Value[] buf = new Value[2 + m.bitLength() / 13];
    int n = 1;
    buf[0] = s < 0 ? M1 : LIMB[1];
    while (m.bitLength() > 62) {
      BigInteger[] qr = m.divideAndRemainder(CHUNK);
      long c = qr[1].longValue();
      buf[n++] = LIMB[(int) (c % 10000)]; c /= 10000;
      buf[n++] = LIMB[(int) (c % 10000)]; c /= 10000;
      buf[n++] = LIMB[(int) c];
      m = qr[0];
    }
    long c = m.longValue();
    while (c > 0) { buf[n++] = LIMB[(int) (c % 10000)]; c /= 10000; }
    while (n > 1 && ((IntValue) buf[n-1]).val == 0) n--;
    if (n != buf.length) buf = java.util.Arrays.copyOf(buf, n);
    return new BN(buf, b);
  }

  public static Value BNeg(Value a) { BigInteger x = num(a); return x == null ? a : mk(x.negate()); }
  public static Value BAbs(Value a) { BigInteger x = num(a); return x == null ? a : mk(x.abs()); }
  public static Value BAdd(Value a, Value b) {
    BigInteger x = num(a); if (x == null) return a;
    BigInteger y = num(b); if (y == null) return b;
    return mk(x.add(y));
  }
  public static Value BSub(Value a, Value b) {
    BigInteger x = num(a); if (x == null) return a;
    BigInteger y = num(b); if (y == null) return b;
    return mk(x.subtract(y));
  }
  public static Value BMul(Value a, Value b) {
    BigInteger x = num(a); if (x == null) return a;
    BigInteger y = num(b); if (y == null) return b;
    return mk(x.multiply(y));
  }
  public static Value BQuo(Value a, Value b) {
    BigInteger x = num(a); if (x == null) return a;
    BigInteger y = num(b); if (y == null) return b;
    if (y.signum() == 0) return ERR;
    return mk(x.divide(y));
  }
  private static int cmp(Value a, Value b) {
    BigInteger x = num(a), y = num(b);
    if (x == null || y == null) throw new RuntimeException("BCmp of a value that is not a number: " + a + " " + b);
    return x.compareTo(y);
  }
  public static Value BCmp(Value a, Value b) { return IntValue.gen(cmp(a, b)); }
  public static Value BLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BLe(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BGt(Value a, Value b) { return cmp(a, b) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BGe(Value a, Value b) { return cmp(a, b) >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value BInt(Value a) { return mk(BigInteger.valueOf(((IntValue) a).val)); }
  public static Value BToInt(Value a) { return IntValue.gen(num(a).intValueExact()); }
  public static Value BPow10(Value n) { int k = ((IntValue) n).val; return mk(k <= 0 ? BigInteger.ONE : P10[k]); }
  public static Value BPow2(Value n) { return mk(BigInteger.ONE.shiftLeft(((IntValue) n).val)); }
  public static Value BDigits(Value a) {
    BigInteger x = num(a);
    if (x.signum() == 0) return LIMB[1];
    TupleValue t = (TupleValue) a.toTuple();
    int top = ((IntValue) t.elems[t.elems.length - 1]).val;
    return IntValue.gen(4 * (t.elems.length - 2) + (top >= 1000 ? 4 : top >= 100 ? 3 : top >= 10 ? 2 : 1));
  }
  public static Value BBitsOver(Value a, Value n) {
    BigInteger x = num(a);
    return x != null && x.abs().bitLength() > ((IntValue) n).val ? BoolValue.ValTrue : BoolValue.ValFalse;
  }
  public static Value BLim(Value a, Value n) {
    BigInteger x = num(a);
    return x != null && x.abs().bitLength() > ((IntValue) n).val ? OVF : a;
  }
  public static Value BMin(Value a, Value b) {
    BigInteger x = num(a); if (x == null) return a;
    BigInteger y = num(b); if (y == null) return b;
    return x.compareTo(y) <= 0 ? a : b;
  }
  public static Value BMax(Value a, Value b) {
    BigInteger x = num(a); if (x == null) return a;
    BigInteger y = num(b); if (y == null) return b;
    return x.compareTo(y) >= 0 ? a : b;
  }
}
