import tlc2.value.impl.Value;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.ValueExcept;
import tlc2.value.IValue;
import tlc2.util.FP64;

/**
 * A real number for TLC: IEEE double value plus the first and second
 * derivative along one direction (a degree-2 Taylor jet).  Only used inside
 * expressions; never stored in a state variable.
 */
public final class RealValue extends Value {
    public final double v, a, b;

    public RealValue(double v) { this.v = v; this.a = 0.0; this.b = 0.0; }
    public RealValue(double v, double a, double b) { this.v = v; this.a = a; this.b = b; }

    boolean isConst() { return a == 0.0 && b == 0.0; }

    /** compose with f given f(v), f'(v), f''(v) */
    RealValue chain(double f0, double f1, double f2) {
        if (isConst()) return new RealValue(f0);
        return new RealValue(f0, f1 * a, f2 * a * a + f1 * b);
    }

    @Override public byte getKind() { return REALVALUE; }

    @Override public int compareTo(Object o) {
        if (o instanceof RealValue) return Double.compare(v, ((RealValue) o).v);
        if (o instanceof IntValue) return Double.compare(v, ((IntValue) o).val);
        throw new RuntimeException("cannot compare real " + v + " with " + o);
    }
    @Override public boolean equals(Object o) {
        if (o instanceof RealValue) return v == ((RealValue) o).v;
        if (o instanceof IntValue) return v == ((IntValue) o).val;
        return false;
    }
    @Override public boolean member(Value x) { throw new RuntimeException("real is not a set"); }
    @Override public boolean isFinite() { return true; }
    @Override public Value takeExcept(ValueExcept ex) { return (Value) ex.value; }
    @Override public Value takeExcept(ValueExcept[] exs) { throw new RuntimeException("EXCEPT on a real"); }
    @Override public int size() { throw new RuntimeException("size of a real"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public void deepNormalize() { }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public long fingerPrint(long fp) { return FP64.Extend(fp, Long.toString(Double.doubleToLongBits(v))); }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        return sb.append(Double.toString(v));
    }
}
