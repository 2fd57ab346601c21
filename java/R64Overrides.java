import tlc2.overrides.ITLCOverrides;
public class R64Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override public Class[] get() { return new Class[] { R64.class }; }
}
