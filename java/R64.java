import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** Java definitions of the operators declared in R64.tla. */
public final class R64 {
    private R64() { }

    static RealValue real(Value x) {
        if (x instanceof RealValue) return (RealValue) x;
        if (x instanceof IntValue) return new RealValue(((IntValue) x).val);
        if (x instanceof StringValue) return parse(((StringValue) x).val.toString());
        throw new RuntimeException("R64: not a number: " + x.getClass().getSimpleName() + " " + x);
    }

    static final ConcurrentHashMap<String, RealValue> PARSED = new ConcurrentHashMap<>();
    static RealValue parse(String s) { return PARSED.computeIfAbsent(s, t -> new RealValue(Double.parseDouble(t))); }

    static Value[] elems(Value x) {
        if (x instanceof TupleValue) return ((TupleValue) x).elems;
        if (x instanceof FcnRcdValue && ((FcnRcdValue) x).size() == 0) return new Value[0];
        Value t = x.toTuple();
        if (t == null) throw new RuntimeException("R64: not a sequence: " + x);
        return ((TupleValue) t).elems;
    }

    /** Evaluate a (nested) function completely; functions on 1..n become tuples. */
    @TLAPlusOperator(identifier = "Force", module = "R64", warn = false)
    public static Value Force(final Value x) {
        if (x instanceof RealValue || x instanceof IntValue || x instanceof StringValue || x instanceof BoolValue) return x;
        if (x instanceof FcnLambdaValue || x instanceof FcnRcdValue) {
            Value t = x.toTuple();
            if (t != null) return Force(t);
            return x.toFcnRcd();
        }
        if (x instanceof TupleValue) {
            Value[] el = ((TupleValue) x).elems;
            for (int i = 0; i < el.length; i++)
                if (el[i] instanceof FcnLambdaValue || el[i] instanceof FcnRcdValue) el[i] = Force(el[i]);
            return x;
        }
        return x;
    }

    static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "R", module = "R64", warn = false)
    public static Value R(final Value x) { return real(x); }

    @TLAPlusOperator(identifier = "RVar", module = "R64", warn = false)
    public static Value RVar(final Value x, final Value d) {
        return new RealValue(real(x).v, real(d).v, 0.0);
    }
    @TLAPlusOperator(identifier = "RJet", module = "R64", warn = false)
    public static Value RJet(final Value x, final Value d, final Value d2) {
        return new RealValue(real(x).v, real(d).v, real(d2).v);
    }
    @TLAPlusOperator(identifier = "RD0", module = "R64", warn = false)
    public static Value RD0(final Value x) { return new RealValue(real(x).v); }
    @TLAPlusOperator(identifier = "RD1", module = "R64", warn = false)
    public static Value RD1(final Value x) { return new RealValue(real(x).a); }
    @TLAPlusOperator(identifier = "RD2", module = "R64", warn = false)
    public static Value RD2(final Value x) { return new RealValue(real(x).b); }

    static RealValue add(RealValue x, RealValue y) { return new RealValue(x.v + y.v, x.a + y.a, x.b + y.b); }
    static RealValue sub(RealValue x, RealValue y) { return new RealValue(x.v - y.v, x.a - y.a, x.b - y.b); }
    static RealValue mul(RealValue x, RealValue y) {
        if (x.isConst()) {
            if (y.isConst()) return new RealValue(x.v * y.v);
            return new RealValue(x.v * y.v, x.v * y.a, x.v * y.b);
        }
        if (y.isConst()) return new RealValue(x.v * y.v, x.a * y.v, x.b * y.v);
        return new RealValue(x.v * y.v, x.a * y.v + x.v * y.a, x.b * y.v + 2.0 * x.a * y.a + x.v * y.b);
    }
    static RealValue recip(RealValue y) {
        double r = 1.0 / y.v;
        return y.chain(r, -r * r, 2.0 * r * r * r);
    }
    static RealValue div(RealValue x, RealValue y) {
        if (y.isConst()) return new RealValue(x.v / y.v, x.a / y.v, x.b / y.v);
        // q y = x differentiated once and twice; no intermediate over- or underflow for tiny y
        double q = x.v / y.v;
        double qa = (x.a - q * y.a) / y.v;
        double qb = (x.b - 2.0 * qa * y.a - q * y.b) / y.v;
        return new RealValue(q, qa, qb);
    }
    static RealValue sqrt(RealValue x) {
        double s = Math.sqrt(x.v);
        return x.chain(s, 0.5 / s, -0.25 / (s * x.v));
    }
    static RealValue exp(RealValue x) { double e = Math.exp(x.v); return x.chain(e, e, e); }
    static RealValue log(RealValue x) { return x.chain(Math.log(x.v), 1.0 / x.v, -1.0 / (x.v * x.v)); }
    static RealValue pow(RealValue x, RealValue y) {
        if (y.isConst()) {
            double p = y.v;
            if (x.isConst()) return new RealValue(Math.pow(x.v, p));
            return x.chain(Math.pow(x.v, p), p * Math.pow(x.v, p - 1.0), p * (p - 1.0) * Math.pow(x.v, p - 2.0));
        }
        if (x.v == 0.0) return new RealValue(Math.pow(x.v, y.v));
        RealValue r = exp(mul(y, log(x)));
        return new RealValue(Math.pow(x.v, y.v), r.a, r.b);
    }

    @TLAPlusOperator(identifier = "++", module = "R64", warn = false)
    public static Value RAdd(final Value x, final Value y) { return add(real(x), real(y)); }
    @TLAPlusOperator(identifier = "--", module = "R64", warn = false)
    public static Value RSub(final Value x, final Value y) { return sub(real(x), real(y)); }
    @TLAPlusOperator(identifier = "**", module = "R64", warn = false)
    public static Value RMul(final Value x, final Value y) { return mul(real(x), real(y)); }
    @TLAPlusOperator(identifier = "//", module = "R64", warn = false)
    public static Value RDiv(final Value x, final Value y) { return div(real(x), real(y)); }
    @TLAPlusOperator(identifier = "^^", module = "R64", warn = false)
    public static Value RPow(final Value x, final Value y) { return pow(real(x), real(y)); }
    @TLAPlusOperator(identifier = "RNeg", module = "R64", warn = false)
    public static Value RNeg(final Value x) { RealValue r = real(x); return new RealValue(-r.v, -r.a, -r.b); }
    @TLAPlusOperator(identifier = "RSqrt", module = "R64", warn = false)
    public static Value RSqrt(final Value x) { return sqrt(real(x)); }
    @TLAPlusOperator(identifier = "RExp", module = "R64", warn = false)
    public static Value RExp(final Value x) { return exp(real(x)); }
    @TLAPlusOperator(identifier = "RLog", module = "R64", warn = false)
    public static Value RLog(final Value x) { return log(real(x)); }
    @TLAPlusOperator(identifier = "RAbs", module = "R64", warn = false)
    public static Value RAbs(final Value x) {
        RealValue r = real(x);
        return r.v < 0 ? new RealValue(-r.v, -r.a, -r.b) : r;
    }

    static double erf0(double x) {
        double t = Math.abs(x);
        if (t > 6.0) return Math.signum(x);
        // erf x = 2/sqrt(pi) exp(-x^2) sum_n 2^n x^(2n+1)/(2n+1)!!   (positive terms)
        double term = t, s = t, q = 2.0 * t * t;
        for (int n = 1; n < 400; n++) {
            term *= q / (2.0 * n + 1.0);
            s += term;
            if (term < 1e-18 * s) break;
        }
        double r = 2.0 / Math.sqrt(Math.PI) * Math.exp(-t * t) * s;
        return x < 0 ? -Math.min(r, 1.0) : Math.min(r, 1.0);
    }
    @TLAPlusOperator(identifier = "RErf", module = "R64", warn = false)
    public static Value RErf(final Value x) {
        RealValue r = real(x);
        double g = 2.0 / Math.sqrt(Math.PI) * Math.exp(-r.v * r.v);
        return r.chain(erf0(r.v), g, -2.0 * r.v * g);
    }

    @TLAPlusOperator(identifier = "RLeq", module = "R64", warn = false)
    public static Value RLeq(final Value x, final Value y) { return bool(real(x).v <= real(y).v); }
    @TLAPlusOperator(identifier = "RLt", module = "R64", warn = false)
    public static Value RLt(final Value x, final Value y) { return bool(real(x).v < real(y).v); }
    @TLAPlusOperator(identifier = "REq", module = "R64", warn = false)
    public static Value REq(final Value x, final Value y) { return bool(real(x).v == real(y).v); }
    @TLAPlusOperator(identifier = "RFinite", module = "R64", warn = false)
    public static Value RFinite(final Value x) { return bool(Double.isFinite(real(x).v)); }
    @TLAPlusOperator(identifier = "RMax", module = "R64", warn = false)
    public static Value RMax(final Value x, final Value y) { RealValue p = real(x), q = real(y); return p.v >= q.v ? p : q; }
    @TLAPlusOperator(identifier = "RMin", module = "R64", warn = false)
    public static Value RMin(final Value x, final Value y) { RealValue p = real(x), q = real(y); return p.v <= q.v ? p : q; }
    @TLAPlusOperator(identifier = "RRound", module = "R64", warn = false)
    public static Value RRound(final Value x) { return IntValue.gen((int) Math.round(real(x).v)); }

    @TLAPlusOperator(identifier = "RStr", module = "R64", warn = false)
    public static Value RStr(final Value x) { return new StringValue(Double.toString(real(x).v)); }
    /** |x - y| <= atol + rtol * scale; false when anything is not finite */
    @TLAPlusOperator(identifier = "RClose", module = "R64", warn = false)
    public static Value RClose(final Value x, final Value y, final Value tol) {
        double p = real(x).v, q = real(y).v;
        return bool(Double.isFinite(p) && Double.isFinite(q) && Math.abs(p - q) <= real(tol).v);
    }

    @TLAPlusOperator(identifier = "RSum", module = "R64", warn = false)
    public static Value RSum(final Value x) {
        double v = 0, a = 0, b = 0;
        for (Value e : elems(x)) { RealValue r = real(e); v += r.v; a += r.a; b += r.b; }
        return new RealValue(v, a, b);
    }
    @TLAPlusOperator(identifier = "RSumAbs", module = "R64", warn = false)
    public static Value RSumAbs(final Value x) {
        double v = 0;
        for (Value e : elems(x)) v += Math.abs(real(e).v);
        return new RealValue(v);
    }
    @TLAPlusOperator(identifier = "RMaxAbs", module = "R64", warn = false)
    public static Value RMaxAbs(final Value x) {
        double v = 0;
        for (Value e : elems(x)) v = Math.max(v, Math.abs(real(e).v));
        return new RealValue(v);
    }
    @TLAPlusOperator(identifier = "RMaxOf", module = "R64", warn = false)
    public static Value RMaxOf(final Value x) {
        RealValue m = null;
        for (Value e : elems(x)) { RealValue r = real(e); if (m == null || r.v > m.v) m = r; }
        return m;
    }
    @TLAPlusOperator(identifier = "RDot", module = "R64", warn = false)
    public static Value RDot(final Value x, final Value y) {
        Value[] p = elems(x), q = elems(y);
        if (p.length != q.length) throw new RuntimeException("RDot: lengths " + p.length + " " + q.length);
        RealValue s = new RealValue(0.0);
        for (int i = 0; i < p.length; i++) s = add(s, mul(real(p[i]), real(q[i])));
        return s;
    }
    @TLAPlusOperator(identifier = "RDot3", module = "R64", warn = false)
    public static Value RDot3(final Value x, final Value y, final Value z) {
        Value[] p = elems(x), q = elems(y), w = elems(z);
        if (p.length != q.length || p.length != w.length) throw new RuntimeException("RDot3: lengths");
        RealValue s = new RealValue(0.0);
        for (int i = 0; i < p.length; i++) s = add(s, mul(mul(real(p[i]), real(q[i])), real(w[i])));
        return s;
    }

    /** Solve the linear system A x = rhs (Gaussian elimination with partial pivoting, on jets). */
    @TLAPlusOperator(identifier = "RSolve", module = "R64", warn = false)
    public static Value RSolve(final Value A, final Value rhs) {
        Value[] rows = elems(A), bb = elems(rhs);
        int n = bb.length;
        RealValue[][] m = new RealValue[n][n + 1];
        for (int i = 0; i < n; i++) {
            Value[] r = elems(rows[i]);
            for (int j = 0; j < n; j++) m[i][j] = real(r[j]);
            m[i][n] = real(bb[i]);
        }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (Math.abs(m[i][c].v) > Math.abs(m[p][c].v)) p = i;
            RealValue[] t = m[c]; m[c] = m[p]; m[p] = t;
            for (int i = c + 1; i < n; i++) {
                RealValue f = div(m[i][c], m[c][c]);
                for (int j = c; j <= n; j++) m[i][j] = sub(m[i][j], mul(f, m[c][j]));
            }
        }
        Value[] x = new Value[n];
        for (int i = n - 1; i >= 0; i--) {
            RealValue s = m[i][n];
            for (int j = i + 1; j < n; j++) s = sub(s, mul(m[i][j], (RealValue) x[j]));
            x[i] = div(s, m[i][i]);
        }
        return new TupleValue(x);
    }

    /** Smallest pivot of the Cholesky factorisation (values only); negative: not positive definite. */
    @TLAPlusOperator(identifier = "RMinPivot", module = "R64", warn = false)
    public static Value RMinPivot(final Value A) {
        Value[] rows = elems(A);
        int n = rows.length;
        double[][] m = new double[n][n];
        for (int i = 0; i < n; i++) {
            Value[] r = elems(rows[i]);
            for (int j = 0; j < n; j++) m[i][j] = real(r[j]).v;
        }
        double min = Double.POSITIVE_INFINITY;
        for (int c = 0; c < n; c++) {
            double piv = m[c][c];
            if (!(piv >= min)) min = piv;
            if (!(piv > 0)) return new RealValue(piv);
            for (int i = c + 1; i < n; i++) {
                double f = m[i][c] / piv;
                for (int j = c; j < n; j++) m[i][j] -= f * m[c][j];
            }
        }
        return new RealValue(min);
    }

    // ---------------------------------------------------------------- oracle
    static long mix(long z) {
        z += 0x9E3779B97F4A7C15L;
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }
    /** Deterministic choice in 0..n-1 from a seed and a key (the generator's oracle). */
    @TLAPlusOperator(identifier = "Pick", module = "R64", warn = false)
    public static Value Pick(final Value seed, final Value key, final Value n) {
        long h = mix(((IntValue) seed).val * 7919L + 17L);
        for (byte c : key.toString().getBytes(StandardCharsets.UTF_8)) h = mix(h ^ c);
        int m = ((IntValue) n).val;
        return IntValue.gen((int) Long.remainderUnsigned(h, m));
    }

    // ---------------------------------------------------------------- JSON
    static final ConcurrentHashMap<String, Value> LOADED = new ConcurrentHashMap<>();

    @TLAPlusOperator(identifier = "Load", module = "R64", warn = false)
    public static Value Load(final Value path) throws IOException {
        String p = ((StringValue) path).val.toString();
        Value v = LOADED.get(p);
        if (v == null) {
            v = new Json(Files.readString(Paths.get(p))).parseAll();
            LOADED.put(p, v);
        }
        return v;
    }
    /** Load a file with one JSON value per line as a sequence. */
    @TLAPlusOperator(identifier = "LoadLines", module = "R64", warn = false)
    public static Value LoadLines(final Value path) throws IOException {
        String p = ((StringValue) path).val.toString();
        Value v = LOADED.get(p);
        if (v == null) {
            List<Value> out = new ArrayList<>();
            for (String l : Files.readAllLines(Paths.get(p))) if (!l.isBlank()) out.add(new Json(l).parseAll());
            v = new TupleValue(out.toArray(new Value[0]));
            LOADED.put(p, v);
        }
        return v;
    }

    @TLAPlusOperator(identifier = "Emit", module = "R64", warn = false)
    public static Value Emit(final Value path, final Value x) throws IOException {
        StringBuilder sb = new StringBuilder();
        json(x, sb);
        sb.append('\n');
        synchronized (R64.class) {
            Files.write(Paths.get(((StringValue) path).val.toString()), sb.toString().getBytes(StandardCharsets.UTF_8),
                StandardOpenOption.CREATE, StandardOpenOption.APPEND);
        }
        return BoolValue.ValTrue;
    }

    static void json(Value x, StringBuilder sb) {
        if (x instanceof RealValue) sb.append(Double.toString(((RealValue) x).v));
        else if (x instanceof IntValue) sb.append(((IntValue) x).val);
        else if (x instanceof BoolValue) sb.append(((BoolValue) x).val);
        else if (x instanceof StringValue) quote(((StringValue) x).val.toString(), sb);
        else if (x instanceof RecordValue) {
            RecordValue r = (RecordValue) x;
            sb.append('{');
            for (int i = 0; i < r.names.length; i++) {
                if (i > 0) sb.append(',');
                quote(r.names[i].toString(), sb); sb.append(':'); json(r.values[i], sb);
            }
            sb.append('}');
        } else if (x instanceof TupleValue) arr(((TupleValue) x).elems, sb);
        else if (x instanceof FcnLambdaValue) json(x.toFcnRcd(), sb);
        else if (x instanceof FcnRcdValue) {
            Value t = x.toTuple();
            if (t != null) { arr(((TupleValue) t).elems, sb); return; }
            Value rc = x.toRcd();
            if (rc != null) { json(rc, sb); return; }
            throw new RuntimeException("Emit: function " + x);
        } else {
            Value e = x.toSetEnum();
            if (e instanceof SetEnumValue) {
                e.normalize();
                Value[] el = new Value[((SetEnumValue) e).elems.size()];
                for (int i = 0; i < el.length; i++) el[i] = ((SetEnumValue) e).elems.elementAt(i);
                arr(el, sb);
            } else throw new RuntimeException("Emit: cannot write " + x.getClass());
        }
    }
    static void arr(Value[] el, StringBuilder sb) {
        sb.append('[');
        for (int i = 0; i < el.length; i++) { if (i > 0) sb.append(','); json(el[i], sb); }
        sb.append(']');
    }
    static void quote(String s, StringBuilder sb) {
        sb.append('"');
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') sb.append('\\').append(c);
            else if (c < 32) sb.append(String.format("\\u%04x", (int) c));
            else sb.append(c);
        }
        sb.append('"');
    }

    /** JSON reader: numbers with '.', exponent, NaN or Infinity become reals; other numbers integers. */
    static final class Json {
        final String s; int i = 0;
        Json(String s) { this.s = s; }
        RuntimeException err(String m) { return new RuntimeException("JSON: " + m + " at " + i); }
        void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
        Value parseAll() { Value v = val(); ws(); if (i != s.length()) throw err("trailing text"); return v; }
        Value val() {
            ws();
            char c = s.charAt(i);
            if (c == '{') {
                i++; ws();
                List<UniqueString> n = new ArrayList<>(); List<Value> v = new ArrayList<>();
                if (s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], false); }
                while (true) {
                    ws(); n.add(UniqueString.uniqueStringOf(str())); ws();
                    if (s.charAt(i++) != ':') throw err("expected :");
                    v.add(val()); ws();
                    char d = s.charAt(i++);
                    if (d == '}') break;
                    if (d != ',') throw err("expected ,");
                }
                Value r = new RecordValue(n.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
                r.normalize();
                return r;
            }
            if (c == '[') {
                i++; ws();
                List<Value> v = new ArrayList<>();
                if (s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
                while (true) {
                    v.add(val()); ws();
                    char d = s.charAt(i++);
                    if (d == ']') break;
                    if (d != ',') throw err("expected ,");
                }
                return new TupleValue(v.toArray(new Value[0]));
            }
            if (c == '"') return new StringValue(str());
            int st = i;
            while (i < s.length() && ",]} \n\r\t".indexOf(s.charAt(i)) < 0) i++;
            String t = s.substring(st, i);
            switch (t) {
                case "true": return BoolValue.ValTrue;
                case "false": return BoolValue.ValFalse;
                case "null": return new StringValue("null");
                case "NaN": return new RealValue(Double.NaN);
                case "Infinity": return new RealValue(Double.POSITIVE_INFINITY);
                case "-Infinity": return new RealValue(Double.NEGATIVE_INFINITY);
                default:
            }
            if (t.matches("-?[0-9]+")) return IntValue.gen(Integer.parseInt(t));
            return new RealValue(Double.parseDouble(t));
        }
        String str() {
            if (s.charAt(i++) != '"') throw err("expected string");
            StringBuilder sb = new StringBuilder();
            while (true) {
                char c = s.charAt(i++);
                if (c == '"') return sb.toString();
                if (c == '\\') {
                    char d = s.charAt(i++);
                    switch (d) {
                        case 'n': sb.append('\n'); break;
                        case 't': sb.append('\t'); break;
                        case 'r': sb.append('\r'); break;
                        case 'b': sb.append('\b'); break;
                        case 'f': sb.append('\f'); break;
                        case 'u': sb.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; break;
                        default: sb.append(d);
                    }
                } else sb.append(c);
            }
        }
    }
}
