// TLC module override for Rat.tla: exact rationals of any size, as canonical strings "n" or "n/d".
// The pure TLA+ meaning is in RatPure.tla; MC_Rat checks that both agree.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Rat {
    private static BigInteger[] p(Value v) {
        String s = ((StringValue) v).val.toString();
        int i = s.indexOf('/');
        if (i < 0) return new BigInteger[] {new BigInteger(s), BigInteger.ONE};
        return new BigInteger[] {new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1))};
    }
    private static Value mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new RuntimeException("division by zero in the specification");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        return new StringValue(d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d);
    }
    public static Value RAdd(Value a, Value b) {
        BigInteger[] x = p(a), y = p(b);
        return mk(x[0].multiply(y[1]).add(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }
    public static Value RSub(Value a, Value b) {
        BigInteger[] x = p(a), y = p(b);
        return mk(x[0].multiply(y[1]).subtract(y[0].multiply(x[1])), x[1].multiply(y[1]));
    }
    public static Value RMul(Value a, Value b) {
        BigInteger[] x = p(a), y = p(b);
        return mk(x[0].multiply(y[0]), x[1].multiply(y[1]));
    }
    public static Value RDiv(Value a, Value b) {
        BigInteger[] x = p(a), y = p(b);
        return mk(x[0].multiply(y[1]), x[1].multiply(y[0]));
    }
    public static Value RNeg(Value a) { BigInteger[] x = p(a); return mk(x[0].negate(), x[1]); }
    public static Value RSign(Value a) { return IntValue.gen(p(a)[0].signum()); }
    // Normal form of a decimal literal such as "-12.50", ".5" or "7."; "" if it is not one.
    public static Value RDec(Value a) {
        String s = ((StringValue) a).val.toString();
        if (!s.matches("-?([0-9]+\\.?[0-9]*|\\.[0-9]+)")) return new StringValue("");
        boolean neg = s.startsWith("-");
        if (neg) s = s.substring(1);
        int i = s.indexOf('.');
        int dec = i < 0 ? 0 : s.length() - i - 1;
        BigInteger n = new BigInteger(s.replace(".", ""));
        return mk(neg ? n.negate() : n, BigInteger.TEN.pow(dec));
    }
    // Rounded to k decimals, half away from zero, as displayed: "-0.05"; never a minus sign on zero.
    public static Value RShow(Value a, Value k) {
        BigInteger[] x = p(a);
        int dec = ((IntValue) k).val;
        BigInteger s = BigInteger.TEN.pow(dec);
        BigInteger num = x[0].abs().multiply(s).multiply(BigInteger.TWO).add(x[1]);
        BigInteger q = num.divide(x[1].multiply(BigInteger.TWO));
        BigInteger[] qr = q.divideAndRemainder(s);
        String f = qr[1].toString();
        while (f.length() < dec) f = "0" + f;
        return new StringValue((x[0].signum() < 0 && q.signum() != 0 ? "-" : "") + qr[0] + (dec > 0 ? "." + f : ""));
    }
}
