package pgvsim;

import java.util.List;

/** What happens in a history. One object per history, in a class loader of its own. */
public abstract class World {
    public Plan plan;
    public Sim sim;
    /** Counters for the evidence. */
    public final java.util.Map<String, Long> count = new java.util.TreeMap<>();
    public void hit(String k) { count.merge(k, 1L, Long::sum); }
    /** Before any thread runs. */
    public abstract void setup() throws Exception;
    /** One operation, on one of the threads. */
    public abstract void op(String[] w, int index) throws Exception;
    /** What was wrong, or null; after all threads have ended. */
    public abstract String judge() throws Exception;
    /** Part of the history's identity besides its schedule. */
    public String outcome() { return ""; }
}
