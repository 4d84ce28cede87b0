import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.value.IValue;

/** TLC module override: the operators of BigNat.tla computed with BigInteger. */
public class BigNat {
  static final int LB = 15, BASE = 1 << LB;
  static final IntValue[] IV = new IntValue[BASE];
  static { for (int i = 0; i < BASE; i++) IV[i] = IntValue.gen(i); }

  static long smallOf(Value[] e) { // <= 4 limbs
    long r = 0;
    for (int i = e.length - 1; i >= 0; i--) r = (r << LB) | ((IntValue) e[i]).val;
    return r;
  }
  static Value[] limbs(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("BigNat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static BigInteger big(Value v) {
    Value[] e = limbs(v);
    int n = e.length;
    if (n <= 4) return BigInteger.valueOf(smallOf(e));
    byte[] b = new byte[(n * LB + 7) / 8 + 1];
    int bitpos = 0;
    for (int i = 0; i < n; i++) {
      int x = ((IntValue) e[i]).val;
      for (int k = 0; k < LB; k++, bitpos++)
        if (((x >> k) & 1) != 0) b[b.length - 1 - (bitpos >> 3)] |= (byte) (1 << (bitpos & 7));
    }
    return new BigInteger(b);
  }
  static Value val(long x) {
    int n = 0;
    for (long t = x; t != 0; t >>>= LB) n++;
    Value[] e = new Value[n];
    for (int i = 0; i < n; i++, x >>>= LB) e[i] = IV[(int) (x & (BASE - 1))];
    return new TupleValue(e);
  }
  static Value val(BigInteger x) {
    int bl = x.bitLength();
    if (bl <= 62) return val(x.longValue());
    int n = (bl + LB - 1) / LB;
    Value[] e = new Value[n];
    BigInteger m = x;
    int i = 0;
    while (i < n) {
      long lo = m.longValue();
      for (int k = 0; k < 4 && i < n; k++, i++, lo >>>= LB) e[i] = IV[(int) (lo & (BASE - 1))];
      m = m.shiftRight(60);
    }
    return new TupleValue(e);
  }
  static boolean small(Value[] e) { return e.length <= 4; }
  static int iv(Value v) { return ((IntValue) v).val; }

  public static Value FromInt(Value n) { return val((long) iv(n)); }

  public static Value Cmp(Value a, Value b) {
    Value[] x = limbs(a), y = limbs(b);
    if (x.length != y.length) return IntValue.gen(x.length < y.length ? -1 : 1);
    for (int i = x.length - 1; i >= 0; i--) {
      int p = ((IntValue) x[i]).val, q = ((IntValue) y[i]).val;
      if (p != q) return IntValue.gen(p < q ? -1 : 1);
    }
    return IntValue.gen(0);
  }
  public static Value Add(Value a, Value b) {
    Value[] x = limbs(a), y = limbs(b);
    if (small(x) && small(y)) return val(smallOf(x) + smallOf(y));
    return val(big(a).add(big(b)));
  }
  public static Value Sub(Value a, Value b) {
    Value[] x = limbs(a), y = limbs(b);
    if (small(x) && small(y)) {
      long r = smallOf(x) - smallOf(y);
      if (r < 0) throw new RuntimeException("BigNat.Sub: negative");
      return val(r);
    }
    BigInteger r = big(a).subtract(big(b));
    if (r.signum() < 0) throw new RuntimeException("BigNat.Sub: negative");
    return val(r);
  }
  public static Value Mul(Value a, Value b) {
    Value[] x = limbs(a), y = limbs(b);
    if (x.length <= 2 && y.length <= 2) return val(smallOf(x) * smallOf(y));
    return val(big(a).multiply(big(b)));
  }
  static int bitLen(Value a) {
    Value[] x = limbs(a);
    if (x.length == 0) return 0;
    return LB * (x.length - 1) + (32 - Integer.numberOfLeadingZeros(((IntValue) x[x.length - 1]).val));
  }
  public static Value BitLen(Value a) { return IntValue.gen(bitLen(a)); }
  public static Value Shl(Value a, Value k) {
    int n = iv(k);
    if (n < 0) throw new RuntimeException("BigNat.Shl: negative shift");
    if (bitLen(a) + n <= 62) return val(smallOf(limbs(a)) << n);
    return val(big(a).shiftLeft(n));
  }
  public static Value Shr(Value a, Value k) {
    int n = iv(k);
    if (n < 0) throw new RuntimeException("BigNat.Shr: negative shift");
    Value[] x = limbs(a);
    if (small(x)) return val(n >= 62 ? 0 : smallOf(x) >>> n);
    return val(big(a).shiftRight(n));
  }
  public static Value Low(Value a, Value k) {
    int n = iv(k);
    if (n < 0) throw new RuntimeException("BigNat.Low: negative width");
    Value[] x = limbs(a);
    if (small(x)) return val(n >= 62 ? smallOf(x) : smallOf(x) & ((1L << n) - 1));
    return val(big(a).and(BigInteger.ONE.shiftLeft(n).subtract(BigInteger.ONE)));
  }
  public static Value Bit(Value a, Value k) {
    int n = iv(k);
    Value[] x = limbs(a);
    int i = n / LB;
    if (i >= x.length) return IntValue.gen(0);
    return IntValue.gen((((IntValue) x[i]).val >> (n % LB)) & 1);
  }
  public static Value Pow2(Value k) { return val(BigInteger.ONE.shiftLeft(iv(k))); }
  public static Value Ones(Value k) { return val(BigInteger.ONE.shiftLeft(iv(k)).subtract(BigInteger.ONE)); }
  public static Value Div(Value a, Value b) {
    Value[] x = limbs(a), y = limbs(b);
    if (small(x) && small(y)) return val(smallOf(x) / smallOf(y));
    return val(big(a).divide(big(b)));
  }
  public static Value Mod(Value a, Value b) {
    Value[] x = limbs(a), y = limbs(b);
    if (small(x) && small(y)) return val(smallOf(x) % smallOf(y));
    return val(big(a).mod(big(b)));
  }
  public static Value And(Value a, Value b) { return val(big(a).and(big(b))); }
  public static Value Or(Value a, Value b) { return val(big(a).or(big(b))); }
  public static Value Xor(Value a, Value b) { return val(big(a).xor(big(b))); }
}
