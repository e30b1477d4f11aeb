package vp;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Evaluation of the operators declared in spec/Dec.tla.  A Dec is a TLA+ string that denotes a real
 * number in decimal notation; results are rounded to 40 significant digits (the checked code computes
 * with about 16).  Nothing of the checked code is known here: this is arithmetic only.
 */
public class DecOps {
    private static final MathContext MC = new MathContext(40, RoundingMode.HALF_EVEN);
    private static final MathContext MX = new MathContext(60, RoundingMode.HALF_EVEN);

    private static final java.util.LinkedHashMap<String, BigDecimal> CACHE =
        new java.util.LinkedHashMap<String, BigDecimal>(4096, 0.75f, true) {
            protected boolean removeEldestEntry(java.util.Map.Entry<String, BigDecimal> e) {
                return size() > 200000;
            }
        };

    private static BigDecimal dec(final Value v) {
        if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
        if (!(v instanceof StringValue))
            throw new RuntimeException("not a Dec: " + v);
        final String s = ((StringValue) v).val.toString();
        return parse(s);
    }

    private static synchronized BigDecimal parse(final String s) {
        BigDecimal r = CACHE.get(s);
        if (r == null) {
            try { r = new BigDecimal(s); }
            catch (NumberFormatException e) { throw new RuntimeException("not a Dec: \"" + s + "\""); }
            CACHE.put(s, r);
        }
        return r;
    }

    private static boolean isFin(final Value v) {
        if (v instanceof IntValue) return true;
        if (!(v instanceof StringValue)) return false;
        try { parse(((StringValue) v).val.toString()); return true; } catch (RuntimeException e) { return false; }
    }

    private static Value val(BigDecimal d) {
        d = d.round(MC);
        if (d.signum() == 0) return new StringValue("0");
        d = d.stripTrailingZeros();
        return new StringValue(d.toString());
    }

    private static Value[] seq(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        return t.elems;
    }

    @TLAPlusOperator(identifier = "IsDec", module = "Dec", warn = false)
    public static Value isDec(final Value a) { return isFin(a) ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "DInt", module = "Dec", warn = false)
    public static Value dInt(final Value a) { return new StringValue(Integer.toString(((IntValue) a).val)); }

    @TLAPlusOperator(identifier = "DAdd", module = "Dec", warn = false)
    public static Value add(final Value a, final Value b) { return val(dec(a).add(dec(b), MC)); }

    @TLAPlusOperator(identifier = "DSub", module = "Dec", warn = false)
    public static Value sub(final Value a, final Value b) { return val(dec(a).subtract(dec(b), MC)); }

    @TLAPlusOperator(identifier = "DMul", module = "Dec", warn = false)
    public static Value mul(final Value a, final Value b) { return val(dec(a).multiply(dec(b), MC)); }

    @TLAPlusOperator(identifier = "DDiv", module = "Dec", warn = false)
    public static Value div(final Value a, final Value b) { return val(dec(a).divide(dec(b), MC)); }

    @TLAPlusOperator(identifier = "DNeg", module = "Dec", warn = false)
    public static Value neg(final Value a) { return val(dec(a).negate()); }

    @TLAPlusOperator(identifier = "DAbs", module = "Dec", warn = false)
    public static Value abs(final Value a) { return val(dec(a).abs()); }

    @TLAPlusOperator(identifier = "DCmp", module = "Dec", warn = false)
    public static Value cmp(final Value a, final Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }

    @TLAPlusOperator(identifier = "DFloor", module = "Dec", warn = false)
    public static Value floor(final Value a) {
        return IntValue.gen(dec(a).setScale(0, RoundingMode.FLOOR).intValueExact());
    }

    @TLAPlusOperator(identifier = "DSum", module = "Dec", warn = false)
    public static Value sum(final Value s) {
        BigDecimal r = BigDecimal.ZERO;
        for (final Value v : seq(s)) r = r.add(dec(v), MX);
        return val(r);
    }

    @TLAPlusOperator(identifier = "DDot", module = "Dec", warn = false)
    public static Value dot(final Value s, final Value t) {
        final Value[] a = seq(s), b = seq(t);
        if (a.length != b.length) throw new RuntimeException("DDot: lengths differ");
        BigDecimal r = BigDecimal.ZERO;
        for (int i = 0; i < a.length; i++) r = r.add(dec(a[i]).multiply(dec(b[i]), MX), MX);
        return val(r);
    }

    @TLAPlusOperator(identifier = "DClose", module = "Dec", warn = false)
    public static Value close(final Value a, final Value b, final Value rel, final Value abs) {
        if (!isFin(a) || !isFin(b)) return BoolValue.ValFalse;
        final BigDecimal x = dec(a), y = dec(b);
        final BigDecimal tol = dec(abs).add(dec(rel).multiply(x.abs().max(y.abs()), MC), MC);
        return x.subtract(y).abs().compareTo(tol) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    // ---------------------------------------------------------------- transcendental

    private static final BigDecimal TWO = BigDecimal.valueOf(2);
    private static BigDecimal LN2;

    private static BigDecimal bexp(final BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        if (x.abs().compareTo(BigDecimal.valueOf(100000)) > 0) throw new RuntimeException("DExp: argument too big");
        // halve until |y| < 2^-4, Taylor, square back
        final MathContext mc = new MathContext(80, RoundingMode.HALF_EVEN);
        int k = 0;
        BigDecimal y = x;
        while (y.abs().compareTo(new BigDecimal("0.0625")) > 0) { y = y.divide(TWO, mc); k++; }
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        for (int n = 1; n < 200; n++) {
            term = term.multiply(y, mc).divide(BigDecimal.valueOf(n), mc);
            sum = sum.add(term, mc);
            if (term.signum() == 0 || term.abs().compareTo(new BigDecimal("1e-75")) < 0) break;
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, mc);
        return sum;
    }

    private static BigDecimal bln(final BigDecimal x) {
        if (x.signum() <= 0) throw new RuntimeException("DLn: argument not positive");
        // Newton on exp from a double start
        double d = x.doubleValue();
        double l;
        if (d > 0 && !Double.isInfinite(d)) l = Math.log(d);
        else l = (x.precision() - x.scale()) * Math.log(10);
        final MathContext mc = new MathContext(70, RoundingMode.HALF_EVEN);
        BigDecimal y = new BigDecimal(l);
        for (int i = 0; i < 4; i++) {
            final BigDecimal e = bexp(y);
            // Halley: y += 2 (x-e)/(x+e)
            y = y.add(TWO.multiply(x.subtract(e, mc), mc).divide(x.add(e, mc), mc), mc);
        }
        return y;
    }

    @TLAPlusOperator(identifier = "DExp", module = "Dec", warn = false)
    public static Value exp(final Value a) { return val(bexp(dec(a))); }

    @TLAPlusOperator(identifier = "DLn", module = "Dec", warn = false)
    public static Value ln(final Value a) { return val(bln(dec(a))); }

    @TLAPlusOperator(identifier = "DPow", module = "Dec", warn = false)
    public static Value pow(final Value a, final Value b) {
        final BigDecimal x = dec(a), y = dec(b);
        BigDecimal n = y.stripTrailingZeros();
        if (n.scale() <= 0 && n.abs().compareTo(BigDecimal.valueOf(100000)) <= 0) {
            return val(x.pow(n.intValueExact(), MX));
        }
        return val(bexp(y.multiply(bln(x), MX)));
    }

    @TLAPlusOperator(identifier = "DSqrt", module = "Dec", warn = false)
    public static Value sqrt(final Value a) { return val(dec(a).sqrt(MX)); }

    // ---------------------------------------------------------------- matrices (sequences of rows)

    private static BigDecimal[][] mat(final Value v) {
        final Value[] rows = seq(v);
        final BigDecimal[][] r = new BigDecimal[rows.length][];
        for (int i = 0; i < rows.length; i++) {
            final Value[] c = seq(rows[i]);
            r[i] = new BigDecimal[c.length];
            for (int j = 0; j < c.length; j++) r[i][j] = dec(c[j]);
        }
        return r;
    }

    private static Value matv(final BigDecimal[][] m) {
        final Value[] rows = new Value[m.length];
        for (int i = 0; i < m.length; i++) {
            final Value[] c = new Value[m[i].length];
            for (int j = 0; j < c.length; j++) c[j] = val(m[i][j]);
            rows[i] = new TupleValue(c);
        }
        return new TupleValue(rows);
    }

    private static BigDecimal[][] mm(final BigDecimal[][] a, final BigDecimal[][] b, final MathContext mc) {
        final int n = a.length, k = b.length, m = b[0].length;
        final BigDecimal[][] r = new BigDecimal[n][m];
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
            if (a[i].length != k) throw new RuntimeException("MMul: shapes");
            BigDecimal s = BigDecimal.ZERO;
            for (int l = 0; l < k; l++)
                if (a[i][l].signum() != 0 && b[l][j].signum() != 0) s = s.add(a[i][l].multiply(b[l][j], mc), mc);
            r[i][j] = s;
        }
        return r;
    }

    @TLAPlusOperator(identifier = "MMul", module = "Dec", warn = false)
    public static Value mmul(final Value a, final Value b) { return matv(mm(mat(a), mat(b), MX)); }

    @TLAPlusOperator(identifier = "MExp", module = "Dec", warn = false)
    public static Value mexp(final Value a) {
        final MathContext mc = new MathContext(80, RoundingMode.HALF_EVEN);
        BigDecimal[][] x = mat(a);
        final int n = x.length;
        BigDecimal norm = BigDecimal.ZERO;
        for (int i = 0; i < n; i++) {
            BigDecimal s = BigDecimal.ZERO;
            for (int j = 0; j < n; j++) s = s.add(x[i][j].abs(), mc);
            norm = norm.max(s);
        }
        int k = 0;
        while (norm.compareTo(new BigDecimal("0.125")) > 0) { norm = norm.divide(TWO, mc); k++; }
        final BigDecimal sc = BigDecimal.ONE.divide(TWO.pow(k), mc);
        final BigDecimal[][] y = new BigDecimal[n][n];
        final BigDecimal[][] sum = new BigDecimal[n][n];
        BigDecimal[][] term = new BigDecimal[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            y[i][j] = x[i][j].multiply(sc, mc);
            sum[i][j] = term[i][j] = i == j ? BigDecimal.ONE : BigDecimal.ZERO;
        }
        for (int t = 1; t < 60; t++) {
            term = mm(term, y, mc);
            BigDecimal big = BigDecimal.ZERO;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
                term[i][j] = term[i][j].divide(BigDecimal.valueOf(t), mc);
                sum[i][j] = sum[i][j].add(term[i][j], mc);
                big = big.max(term[i][j].abs());
            }
            if (big.compareTo(new BigDecimal("1e-75")) < 0) break;
        }
        BigDecimal[][] r = sum;
        for (int i = 0; i < k; i++) r = mm(r, r, mc);
        return matv(r);
    }

    @TLAPlusOperator(identifier = "MSolve", module = "Dec", warn = false)
    public static Value msolve(final Value av, final Value bv) {
        final MathContext mc = new MathContext(70, RoundingMode.HALF_EVEN);
        final BigDecimal[][] a = mat(av), b = mat(bv);
        final int n = a.length, m = b[0].length;
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (a[i][c].abs().compareTo(a[p][c].abs()) > 0) p = i;
            if (a[p][c].signum() == 0) throw new RuntimeException("MSolve: singular");
            final BigDecimal[] t = a[p]; a[p] = a[c]; a[c] = t;
            final BigDecimal[] u = b[p]; b[p] = b[c]; b[c] = u;
            for (int i = 0; i < n; i++) if (i != c) {
                final BigDecimal f = a[i][c].divide(a[c][c], mc);
                if (f.signum() == 0) continue;
                for (int j = 0; j < n; j++) a[i][j] = a[i][j].subtract(f.multiply(a[c][j], mc), mc);
                for (int j = 0; j < m; j++) b[i][j] = b[i][j].subtract(f.multiply(b[c][j], mc), mc);
            }
        }
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) b[i][j] = b[i][j].divide(a[i][i], mc);
        return matv(b);
    }
}
