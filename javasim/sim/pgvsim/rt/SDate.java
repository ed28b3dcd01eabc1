package pgvsim.rt;

/** new Date() under the simulated clock. */
public class SDate extends java.util.Date {
    public SDate() { super(pgvsim.Sim.millis()); }
    public SDate(long ms) { super(ms); }
}
