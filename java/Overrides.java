package vp;

import tlc2.overrides.ITLCOverrides;

/** Index of the operator overrides; named in -Dtlc2.overrides.TLCOverrides by harness/vlib.py. */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() { return new Class[] { DecOps.class }; }
}
