import java.math.BigDecimal;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * IEEE-754 binary64 for TLC, the meaning of the operators declared in Float64.tla.
 *
 * A number is <<hi, lo>>, the two signed 32-bit halves of its bit pattern. A noisy number is
 * <<hi, lo, k>> with k > 0: any operation with a noisy operand yields a result with tag k, moved by a
 * few units in the last place chosen by a hash of (result, k). Evaluating the same specification with
 * different tags therefore measures how much rounding can move its value.
 */
public class Float64 {
  private static final int NOISE = 2; // maximum displacement of one operation, in ulps

  static double d(Value v) {
    Value[] t = ((TupleValue) v.toTuple()).elems;
    long hi = ((IntValue) t[0]).val;
    long lo = ((IntValue) t[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }

  static int k(Value v) {
    Value[] t = ((TupleValue) v.toTuple()).elems;
    return t.length > 2 ? ((IntValue) t[2]).val : 0;
  }

  static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }

  static Value v(double x, int k) {
    if (k == 0) return v(x);
    long b = Double.doubleToLongBits(x);
    if (x != 0.0 && !Double.isNaN(x) && !Double.isInfinite(x)) {
      long h = (b ^ (k * 0x9E3779B97F4A7C15L)) * 0xBF58476D1CE4E5B9L;
      h ^= h >>> 29;
      h *= 0x94D049BB133111EBL;
      h ^= h >>> 32;
      long step = Math.floorMod(h, 2 * NOISE + 1) - NOISE;
      // the sign-magnitude layout makes +-ulps an integer addition
      if (((b + step) ^ b) >= 0 && Double.isFinite(Double.longBitsToDouble(b + step))) b += step;
    }
    return new TupleValue(
        new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b), IntValue.gen(k)});
  }

  static int k(Value a, Value b) {
    return Math.max(k(a), k(b));
  }

  static Value bool(boolean x) {
    return x ? BoolValue.ValTrue : BoolValue.ValFalse;
  }

  private static final ConcurrentHashMap<String, Value> LITERALS = new ConcurrentHashMap<>();

  @TLAPlusOperator(identifier = "F", module = "Float64", warn = false)
  public static Value lit(StringValue s) {
    return LITERALS.computeIfAbsent(
        s.val.toString(), x -> x.equals("pi") ? v(Math.PI) : v(Double.parseDouble(x)));
  }

  @TLAPlusOperator(identifier = "FInt", module = "Float64", warn = false)
  public static Value fint(IntValue n) {
    return v((double) n.val);
  }

  @TLAPlusOperator(identifier = "Noisy", module = "Float64", warn = false)
  public static Value noisy(Value a, IntValue n) {
    long b = Double.doubleToLongBits(d(a));
    if (n.val == 0) return v(d(a));
    return new TupleValue(
        new Value[] {IntValue.gen((int) (b >> 32)), IntValue.gen((int) b), IntValue.gen(n.val)});
  }

  @TLAPlusOperator(identifier = "Exactly", module = "Float64", warn = false)
  public static Value exactly(Value a) {
    return v(d(a));
  }

  @TLAPlusOperator(identifier = "\\oplus", module = "Float64", warn = false)
  public static Value add(Value a, Value b) {
    return v(d(a) + d(b), k(a, b));
  }

  @TLAPlusOperator(identifier = "\\ominus", module = "Float64", warn = false)
  public static Value sub(Value a, Value b) {
    return v(d(a) - d(b), k(a, b));
  }

  @TLAPlusOperator(identifier = "\\otimes", module = "Float64", warn = false)
  public static Value mul(Value a, Value b) {
    return v(d(a) * d(b), k(a, b));
  }

  @TLAPlusOperator(identifier = "\\oslash", module = "Float64", warn = false)
  public static Value div(Value a, Value b) {
    return v(d(a) / d(b), k(a, b));
  }

  @TLAPlusOperator(identifier = "Neg", module = "Float64", warn = false)
  public static Value neg(Value a) {
    int k = k(a);
    return k == 0 ? v(-d(a)) : noisy(v(-d(a)), IntValue.gen(k));
  }

  @TLAPlusOperator(identifier = "Abs", module = "Float64", warn = false)
  public static Value abs(Value a) {
    int k = k(a);
    return k == 0 ? v(Math.abs(d(a))) : noisy(v(Math.abs(d(a))), IntValue.gen(k));
  }

  @TLAPlusOperator(identifier = "\\prec", module = "Float64", warn = false)
  public static Value lt(Value a, Value b) {
    return bool(d(a) < d(b));
  }

  @TLAPlusOperator(identifier = "\\preceq", module = "Float64", warn = false)
  public static Value le(Value a, Value b) {
    return bool(d(a) <= d(b));
  }

  @TLAPlusOperator(identifier = "\\succ", module = "Float64", warn = false)
  public static Value gt(Value a, Value b) {
    return bool(d(a) > d(b));
  }

  @TLAPlusOperator(identifier = "\\succeq", module = "Float64", warn = false)
  public static Value ge(Value a, Value b) {
    return bool(d(a) >= d(b));
  }

  @TLAPlusOperator(identifier = "FEq", module = "Float64", warn = false)
  public static Value eq(Value a, Value b) {
    return bool(d(a) == d(b));
  }

  @TLAPlusOperator(identifier = "IsNaN", module = "Float64", warn = false)
  public static Value isNaN(Value a) {
    return bool(Double.isNaN(d(a)));
  }

  @TLAPlusOperator(identifier = "IsFinite", module = "Float64", warn = false)
  public static Value isFinite(Value a) {
    return bool(Double.isFinite(d(a)));
  }

  @TLAPlusOperator(identifier = "IsNegative", module = "Float64", warn = false)
  public static Value isNegative(Value a) {
    return bool((Double.doubleToRawLongBits(d(a)) >>> 63) != 0);
  }

  @TLAPlusOperator(identifier = "FMax", module = "Float64", warn = false)
  public static Value max(Value a, Value b) {
    double x = d(a), y = d(b);
    return Double.isNaN(x) ? b : Double.isNaN(y) ? a : x >= y ? a : b;
  }

  @TLAPlusOperator(identifier = "FMin", module = "Float64", warn = false)
  public static Value min(Value a, Value b) {
    double x = d(a), y = d(b);
    return Double.isNaN(x) ? b : Double.isNaN(y) ? a : x <= y ? a : b;
  }

  @TLAPlusOperator(identifier = "Sqrt", module = "Float64", warn = false)
  public static Value sqrt(Value a) {
    return v(Math.sqrt(d(a)), k(a));
  }

  @TLAPlusOperator(identifier = "Sin", module = "Float64", warn = false)
  public static Value sin(Value a) {
    return v(StrictMath.sin(d(a)), k(a));
  }

  @TLAPlusOperator(identifier = "Cos", module = "Float64", warn = false)
  public static Value cos(Value a) {
    return v(StrictMath.cos(d(a)), k(a));
  }

  @TLAPlusOperator(identifier = "Atan2", module = "Float64", warn = false)
  public static Value atan2(Value a, Value b) {
    return v(StrictMath.atan2(d(a), d(b)), k(a, b));
  }

  @TLAPlusOperator(identifier = "Pow", module = "Float64", warn = false)
  public static Value pow(Value a, Value b) {
    return v(StrictMath.pow(d(a), d(b)), k(a, b));
  }

  static double powi(double x, int n) {
    double r = 1.0;
    boolean inverse = n < 0;
    n = Math.abs(n);
    while (n > 0) {
      if ((n & 1) == 1) r *= x;
      n >>= 1;
      if (n > 0) x *= x;
    }
    return inverse ? 1.0 / r : r;
  }

  @TLAPlusOperator(identifier = "PowI", module = "Float64", warn = false)
  public static Value fpowi(Value a, IntValue n) {
    return v(powi(d(a), n.val), k(a));
  }

  @TLAPlusOperator(identifier = "Rem", module = "Float64", warn = false)
  public static Value rem(Value a, Value b) {
    return v(d(a) % d(b), k(a, b));
  }

  @TLAPlusOperator(identifier = "Mod", module = "Float64", warn = false)
  public static Value mod(Value a, Value b) {
    double r = d(a) % d(b);
    return v(r < 0.0 ? r + Math.abs(d(b)) : r, k(a, b));
  }

  @TLAPlusOperator(identifier = "Floor", module = "Float64", warn = false)
  public static Value floor(Value a) {
    int k = k(a);
    return k == 0 ? v(Math.floor(d(a))) : noisy(v(Math.floor(d(a))), IntValue.gen(k));
  }

  @TLAPlusOperator(identifier = "Trunc", module = "Float64", warn = false)
  public static Value trunc(Value a) {
    double x = d(a);
    double y = x < 0 ? Math.ceil(x) : Math.floor(x);
    int k = k(a);
    return k == 0 ? v(y) : noisy(v(y), IntValue.gen(k));
  }

  /** |a| as an integer, for a finite integral number below 2^31. */
  @TLAPlusOperator(identifier = "ToInt", module = "Float64", warn = false)
  public static Value toInt(Value a) {
    return IntValue.gen((int) d(a));
  }

  /** The double nearest to digits x 10^exponent, digits most significant first. */
  @TLAPlusOperator(identifier = "FDecimal", module = "Float64", warn = false)
  public static Value decimal(BoolValue negative, Value digits, IntValue exponent) {
    Value[] t = ((TupleValue) digits.toTuple()).elems;
    StringBuilder s = new StringBuilder();
    for (Value x : t) s.append((char) ('0' + ((IntValue) x).val));
    if (s.length() == 0) s.append('0');
    s.append('E').append(exponent.val);
    double x = Double.parseDouble(s.toString());
    return v(negative.val ? -x : x);
  }

  /** Exact sign of a - digits x 10^exponent (a finite): -1, 0 or 1. */
  @TLAPlusOperator(identifier = "FCompareDecimal", module = "Float64", warn = false)
  public static Value compareDecimal(Value a, BoolValue negative, Value digits, IntValue exponent) {
    Value[] t = ((TupleValue) digits.toTuple()).elems;
    StringBuilder s = new StringBuilder(negative.val ? "-0" : "0");
    for (Value x : t) s.append((char) ('0' + ((IntValue) x).val));
    s.append('E').append(exponent.val);
    return IntValue.gen(new BigDecimal(d(a)).compareTo(new BigDecimal(s.toString())));
  }

  @TLAPlusOperator(identifier = "NextUp", module = "Float64", warn = false)
  public static Value nextUp(Value a) {
    return v(Math.nextUp(d(a)));
  }

  @TLAPlusOperator(identifier = "NextDown", module = "Float64", warn = false)
  public static Value nextDown(Value a) {
    return v(Math.nextDown(d(a)));
  }

  @TLAPlusOperator(identifier = "FStr", module = "Float64", warn = false)
  public static Value str(Value a) {
    return new StringValue(Double.toString(d(a)));
  }
}
