// TLC module override for Text.tla; MC_Text checks that it agrees with TextPure.tla.
import java.util.ArrayList;
import tlc2.value.impl.*;

public class Text {
    private static final String UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c1\u00c4\u00c9\u00cd\u00d1\u00d3\u00d6\u00da\u00dc\u017d";
    private static final String LOW = "abcdefghijklmnopqrstuvwxyz\u00e1\u00e4\u00e9\u00ed\u00f1\u00f3\u00f6\u00fa\u00fc\u017e";
    private static final String ALPHABET = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
        + "\u00a3\u00c1\u00c4\u00c9\u00cd\u00d1\u00d3\u00d6\u00da\u00dc\u00e1\u00e4\u00e9\u00ed\u00f1\u00f3\u00f6\u00fa\u00fc\u017d\u017e\u20ac";
    private static String s(Value v) { return ((StringValue) v).val.toString(); }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static String lower(String x) {
        StringBuilder r = new StringBuilder();
        for (int i = 0; i < x.length(); i++) {
            int k = UP.indexOf(x.charAt(i));
            r.append(k < 0 ? x.charAt(i) : LOW.charAt(k));
        }
        return r.toString();
    }
    private static int ord(char c) { int k = ALPHABET.indexOf(c); return k < 0 ? 1000 : k + 1; }
    public static Value Lower(Value a) { return new StringValue(lower(s(a))); }
    public static Value StrLess(Value a, Value c) {
        String x = s(a), y = s(c);
        for (int i = 0; i < y.length(); i++) {
            if (i >= x.length()) return b(true);
            if (x.charAt(i) != y.charAt(i)) return b(ord(x.charAt(i)) < ord(y.charAt(i)));
        }
        return b(false);
    }
    public static Value StartsWith(Value a, Value p) { return b(s(a).startsWith(s(p))); }
    public static Value EndsWith(Value a, Value p) { return b(s(a).endsWith(s(p))); }
    public static Value IndexIn(Value c, Value a, Value i) {
        return IntValue.gen(s(a).indexOf(s(c).charAt(0), ((IntValue) i).val - 1) + 1);
    }
    private static ArrayList<String> split(String x, char sep) {
        ArrayList<String> r = new ArrayList<>();
        int from = 0;
        for (int i = 0; i <= x.length(); i++)
            if (i == x.length() || x.charAt(i) == sep) { r.add(x.substring(from, i)); from = i + 1; }
        return r;
    }
    public static Value Split(Value a, Value sep) {
        ArrayList<String> r = split(s(a), s(sep).charAt(0));
        Value[] vs = new Value[r.size()];
        for (int i = 0; i < vs.length; i++) vs[i] = new StringValue(r.get(i));
        return new TupleValue(vs);
    }
    private static boolean here(String re, int i, String t, int j) {
        if (i >= re.length()) return true;
        boolean esc = re.charAt(i) == '\\' && i + 1 < re.length();
        char c = esc ? re.charAt(i + 1) : re.charAt(i);
        int n = esc ? i + 2 : i + 1;
        boolean one = j < t.length() && ((!esc && c == '.') || t.charAt(j) == c);
        if (n < re.length() && re.charAt(n) == '*')
            return here(re, n + 1, t, j) || (one && here(re, i, t, j + 1));
        if (!esc && c == '$' && i == re.length() - 1) return j == t.length();
        return one && here(re, n, t, j + 1);
    }
    public static Value Matches(Value re, Value ci, Value a) {
        String r = s(re), t = s(a);
        if (((BoolValue) ci).val) { r = lower(r); t = lower(t); }
        for (String alt : split(r, '|')) {
            if (alt.startsWith("^")) { if (here(alt, 1, t, 0)) return b(true); }
            else for (int j = 0; j <= t.length(); j++) if (here(alt, 0, t, j)) return b(true);
        }
        return b(false);
    }
    public static Value RTrim(Value a) {
        String x = s(a);
        int n = x.length();
        while (n > 0 && (x.charAt(n - 1) == ' ' || x.charAt(n - 1) == '\t')) n--;
        return new StringValue(x.substring(0, n));
    }
    public static Value LTrim(Value a) {
        String x = s(a);
        int i = 0;
        while (i < x.length() && (x.charAt(i) == ' ' || x.charAt(i) == '\t')) i++;
        return new StringValue(x.substring(i));
    }
}
