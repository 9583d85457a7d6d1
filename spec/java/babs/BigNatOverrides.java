package babs;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluators for the operators of BigNat.tla.  Each computes what the TLA+ definition of the same
 *  name (suffix Def) defines; MCBigNat.tla compares the two. */
public class BigNatOverrides implements ITLCOverrides {
    @Override
    public Class<?>[] get() { return new Class<?>[] { BigNatOverrides.class }; }

    private static byte[] bytesBE(Value v) {
        Value[] e = elems(v);
        byte[] b = new byte[e.length];
        for (int i = 0; i < e.length; i++) b[e.length - 1 - i] = (byte) ((IntValue) e[i]).val;
        return b;
    }
    private static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("BigNat: not a sequence: " + v);
        return t.elems;
    }
    private static BigInteger big(Value v) { return new BigInteger(1, bytesBE(v)); }
    private static Value nat(BigInteger x) {
        if (x.signum() < 0) throw new RuntimeException("BigNat: negative");
        if (x.signum() == 0) return TupleValue.EmptyTuple;
        byte[] b = x.toByteArray();
        int off = b[0] == 0 ? 1 : 0;
        int n = b.length - off;
        Value[] e = new Value[n];
        for (int i = 0; i < n; i++) e[i] = IntValue.gen(b[b.length - 1 - i] & 0xff);
        return new TupleValue(e);
    }
    private static int i(Value v) { return ((IntValue) v).val; }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static String s(Value v) { return ((StringValue) v).val.toString(); }

    @TLAPlusOperator(identifier = "NNorm", module = "BigNat", warn = false)
    public static Value norm(final Value a) { return nat(big(a)); }
    @TLAPlusOperator(identifier = "NCmp", module = "BigNat", warn = false)
    public static Value cmp(final Value a, final Value c) { return IntValue.gen(big(a).compareTo(big(c))); }
    @TLAPlusOperator(identifier = "NAdd", module = "BigNat", warn = false)
    public static Value add(final Value a, final Value c) { return nat(big(a).add(big(c))); }
    @TLAPlusOperator(identifier = "NSub", module = "BigNat", warn = false)
    public static Value sub(final Value a, final Value c) { return nat(big(a).subtract(big(c))); }
    @TLAPlusOperator(identifier = "NMul", module = "BigNat", warn = false)
    public static Value mul(final Value a, final Value c) { return nat(big(a).multiply(big(c))); }
    @TLAPlusOperator(identifier = "NDivMod", module = "BigNat", warn = false)
    public static Value divmod(final Value a, final Value c) {
        BigInteger[] r = big(a).divideAndRemainder(big(c));
        return new TupleValue(nat(r[0]), nat(r[1]));
    }
    @TLAPlusOperator(identifier = "NPow", module = "BigNat", warn = false)
    public static Value pow(final Value a, final Value n) { return nat(big(a).pow(i(n))); }

    /** Value of digits lo..hi-1 (each K bytes) in radix r, divide and conquer */
    private static BigInteger horner(BigInteger r, int K, Value[] e, int lo, int hi) {
        if (hi - lo <= 8) {
            BigInteger v = BigInteger.ZERO;
            for (int d = hi - 1; d >= lo; d--) v = v.multiply(r).add(digit(K, e, d));
            return v;
        }
        int mid = (lo + hi) >>> 1;
        return horner(r, K, e, mid, hi).multiply(r.pow(mid - lo)).add(horner(r, K, e, lo, mid));
    }
    private static BigInteger digit(int K, Value[] e, int d) {
        byte[] x = new byte[K];
        for (int j = 0; j < K; j++) x[K - 1 - j] = (byte) ((IntValue) e[d * K + j]).val;
        return new BigInteger(1, x);
    }
    private static boolean fullRadix(BigInteger r, int K) { return r.equals(BigInteger.ONE.shiftLeft(8 * K)); }

    @TLAPlusOperator(identifier = "NFromDigits", module = "BigNat", warn = false)
    public static Value fromDigits(final Value r, final Value k, final Value bs) {
        int K = i(k);
        Value[] e = elems(bs);
        BigInteger R = big(r);
        if (fullRadix(R, K) && e.length % K == 0) return nat(big(bs));
        return nat(horner(R, K, e, 0, e.length / K));
    }
    private static boolean inRange(BigInteger R, int K, Value[] e) {
        if (e.length % K != 0) return false;
        if (fullRadix(R, K)) return true;
        for (int d = 0; d < e.length / K; d++) if (digit(K, e, d).compareTo(R) >= 0) return false;
        return true;
    }
    @TLAPlusOperator(identifier = "NDigitsInRange", module = "BigNat", warn = false)
    public static Value digitsInRange(final Value r, final Value k, final Value bs) {
        return b(inRange(big(r), i(k), elems(bs)));
    }
    @TLAPlusOperator(identifier = "NCanonical", module = "BigNat", warn = false)
    public static Value canonical(final Value r, final Value k, final Value bs) {
        int K = i(k);
        Value[] e = elems(bs);
        if (!inRange(big(r), K, e)) return BoolValue.ValFalse;
        return b(e.length == 0 || digit(K, e, e.length / K - 1).signum() != 0);
    }
    @TLAPlusOperator(identifier = "NToDigits", module = "BigNat", warn = false)
    public static Value toDigits(final Value r, final Value k, final Value v) {
        int K = i(k);
        BigInteger R = big(r), x = big(v);
        java.util.ArrayList<BigInteger> ds = new java.util.ArrayList<>();
        split(R, x, -1, ds);
        int n = ds.size();
        while (n > 0 && ds.get(n - 1).signum() == 0) n--;
        Value[] e = new Value[n * K];
        for (int d = 0; d < n; d++) {
            BigInteger t = ds.get(d);
            for (int j = 0; j < K; j++) e[d * K + j] = IntValue.gen(t.shiftRight(8 * j).intValue() & 0xff);
        }
        return new TupleValue(e);
    }
    /** Append the digits of x in radix R to ds; exactly n of them if n >= 0 */
    @TLAPlusOperator(identifier = "NLen", module = "BigNat", warn = false)
    public static Value len(final Value r, final Value v) {
        BigInteger R = big(r), x = big(v);
        if (x.signum() == 0) return IntValue.gen(0);
        int n = Math.max(1, (int) ((x.bitLength() - 1) / (Math.log(R.doubleValue()) / Math.log(2))) - 1);
        while (n > 1 && R.pow(n - 1).compareTo(x) > 0) n--;
        for (BigInteger p = R.pow(n); p.compareTo(x) <= 0; p = p.multiply(R)) n++;
        return IntValue.gen(n);
    }
    private static void split(BigInteger R, BigInteger x, int n, java.util.ArrayList<BigInteger> ds) {
        int est = n >= 0 ? n : x.bitLength() / Math.max(1, R.bitLength() - 1) + 1;
        if (est <= 8) {
            int c = 0;
            while (n >= 0 ? c < n : x.signum() != 0) {
                BigInteger[] t = x.divideAndRemainder(R);
                ds.add(t[1]);
                x = t[0];
                c++;
            }
            return;
        }
        int h = est / 2;
        BigInteger[] t = x.divideAndRemainder(R.pow(h));
        split(R, t[1], h, ds);
        split(R, t[0], n >= 0 ? n - h : -1, ds);
    }

    @TLAPlusOperator(identifier = "NNumeral", module = "BigNat", warn = false)
    public static Value numeral(final Value v, final Value base, final Value glyphs) {
        String t = big(v).toString(i(base));
        Value[] g = elems(glyphs);
        StringBuilder sb = new StringBuilder(t.length());
        for (int j = 0; j < t.length(); j++) sb.append(s(g[Character.digit(t.charAt(j), 16)]));
        return new StringValue(sb.toString());
    }
    private static int charVal(char ch, int base) {
        int x = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10
              : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
        return x < base ? x : -1;
    }
    @TLAPlusOperator(identifier = "NIsNumeral", module = "BigNat", warn = false)
    public static Value isNumeral(final Value str, final Value from, final Value base) {
        String t = s(str);
        for (int j = i(from) - 1; j < t.length(); j++) if (charVal(t.charAt(j), i(base)) < 0) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    @TLAPlusOperator(identifier = "NOfNumeral", module = "BigNat", warn = false)
    public static Value ofNumeral(final Value str, final Value from, final Value base) {
        String t = s(str).substring(Math.min(i(from) - 1, s(str).length()));
        return nat(t.isEmpty() ? BigInteger.ZERO : new BigInteger(t, i(base)));
    }
    @TLAPlusOperator(identifier = "BytesOfHex", module = "BigNat", warn = false)
    public static Value bytesOfHex(final Value str) {
        String t = s(str);
        Value[] e = new Value[t.length() / 2];
        for (int j = 0; j < e.length; j++)
            e[j] = IntValue.gen(16 * charVal(t.charAt(2 * j), 16) + charVal(t.charAt(2 * j + 1), 16));
        return e.length == 0 ? TupleValue.EmptyTuple : new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "Repeat", module = "BigNat", warn = false)
    public static Value repeat(final Value ch, final Value n) {
        return new StringValue(s(ch).repeat(Math.max(0, i(n))));
    }
}
