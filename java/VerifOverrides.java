import tlc2.overrides.ITLCOverrides;

/** Registers the evaluators with TLC. */
public final class VerifOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() { return new Class[] { BigNatOv.class, CurveOv.class, HashesOv.class, WireOv.class, SweepOv.class }; }
}
