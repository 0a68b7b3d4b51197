// TLC module override for spec/Dec.tla: real arithmetic on decimal numerals.
// A number is a TLA+ string holding a decimal numeral ("0.25", "-1.5E-3").
// Every operation is carried out with MC significant digits (trusted base).
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Dec {
    static final MathContext MC = new MathContext(36, RoundingMode.HALF_EVEN);
    static final MathContext WK = new MathContext(52, RoundingMode.HALF_EVEN);
    static final BigDecimal TWO = BigDecimal.valueOf(2);
    static final BigDecimal LN2 = new BigDecimal(
        "0.693147180559945309417232121458176568075500134360255254120680009493393621969694715605863326996418687");

    static BigDecimal num(Value v) {
        return new BigDecimal(((StringValue) v).val.toString());
    }

    static Value str(BigDecimal d) {
        return new StringValue(d.round(MC).toString());
    }

    static boolean isNum(Value v) {
        if (!(v instanceof StringValue)) return false;
        try {
            num(v);
            return true;
        } catch (NumberFormatException e) {
            return false;
        }
    }

    public static Value IsNum(Value a) { return isNum(a) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Add(Value a, Value b) { return str(num(a).add(num(b), MC)); }
    public static Value Sub(Value a, Value b) { return str(num(a).subtract(num(b), MC)); }
    public static Value Mul(Value a, Value b) { return str(num(a).multiply(num(b), MC)); }
    public static Value Div(Value a, Value b) { return str(num(a).divide(num(b), MC)); }
    public static Value Negate(Value a) { return str(num(a).negate()); }
    public static Value Abs(Value a) { return str(num(a).abs()); }
    public static Value Sqrt(Value a) { return str(num(a).sqrt(MC)); }
    public static Value Exp(Value a) { return str(exp(num(a))); }
    public static Value Ln(Value a) { return str(ln(num(a))); }
    public static Value Leq(Value a, Value b) { return num(a).compareTo(num(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Lt(Value a, Value b) { return num(a).compareTo(num(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Eq(Value a, Value b) { return num(a).compareTo(num(b)) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value OfInt(Value n) { return new StringValue(Integer.toString(((IntValue) n).val)); }
    public static Value Floor(Value a) {
        return IntValue.gen(num(a).setScale(0, RoundingMode.FLOOR).intValueExact());
    }
    public static Value RoundTo(Value a, Value n) {
        return str(num(a).setScale(((IntValue) n).val, RoundingMode.HALF_EVEN));
    }

    static String text(Value v) { return ((StringValue) v).val.toString(); }
    public static Value HasText(Value s, Value t) { return text(s).contains(text(t)) ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value HasWord(Value s, Value t) {
        return text(s).toLowerCase().contains(text(t).toLowerCase()) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static Value[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        return t.elems;
    }

    static Value best(Value s, int sign) {
        Value[] xs = seq(s);
        Value out = xs[0];
        for (Value x : xs) if (num(x).compareTo(num(out)) * sign > 0) out = x;
        return out;
    }
    public static Value MaxSeq(Value s) { return best(s, 1); }
    public static Value MinSeq(Value s) { return best(s, -1); }
    public static Value Sum(Value s) {
        BigDecimal acc = BigDecimal.ZERO;
        for (Value v : seq(s)) acc = acc.add(num(v), MC);
        return str(acc);
    }

    public static Value Dot(Value s, Value t) {
        BigDecimal acc = BigDecimal.ZERO;
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length) throw new RuntimeException("Dot: lengths " + a.length + " and " + b.length);
        for (int i = 0; i < a.length; i++) acc = acc.add(num(a[i]).multiply(num(b[i]), MC), MC);
        return str(acc);
    }

    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        if (x.compareTo(BigDecimal.valueOf(-1000000)) < 0) return BigDecimal.ZERO;
        if (x.compareTo(BigDecimal.valueOf(1000000)) > 0) throw new ArithmeticException("exp overflow");
        BigInteger k = x.divide(LN2, WK).setScale(0, RoundingMode.HALF_EVEN).toBigInteger();
        BigDecimal r = x.subtract(LN2.multiply(new BigDecimal(k)), WK);
        int sq = 6;
        r = r.divide(BigDecimal.valueOf(1L << sq), WK);
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        BigDecimal eps = BigDecimal.ONE.scaleByPowerOfTen(-54);
        for (int i = 1; i < 60; i++) {
            term = term.multiply(r, WK).divide(BigDecimal.valueOf(i), WK);
            sum = sum.add(term, WK);
            if (term.abs().compareTo(eps) < 0) break;
        }
        for (int i = 0; i < sq; i++) sum = sum.multiply(sum, WK);
        int ki = k.intValueExact();
        BigDecimal p = TWO.pow(Math.abs(ki), WK);
        return ki >= 0 ? sum.multiply(p, WK) : sum.divide(p, WK);
    }

    static BigDecimal ln(BigDecimal x) {
        if (x.signum() <= 0) throw new ArithmeticException("ln of non-positive " + x);
        int e = x.precision() - x.scale();
        BigDecimal m = x.scaleByPowerOfTen(-e); // in [0.1, 1)
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 3; i++) {
            BigDecimal ey = exp(y);
            BigDecimal d = m.subtract(ey, WK).multiply(TWO).divide(m.add(ey, WK), WK);
            y = y.add(d, WK);
            if (d.signum() == 0 || d.abs().compareTo(BigDecimal.ONE.scaleByPowerOfTen(-20)) < 0) break;
        }
        if (e == 0) return y;
        BigDecimal ln10 = LN10;
        return y.add(ln10.multiply(BigDecimal.valueOf(e)), WK);
    }

    static final BigDecimal LN10 = new BigDecimal(
        "2.302585092994045684017991454684364207601101488628772976033327900967572609677352480235997205089598298");
}
