package pgvsim.rt;

import pgvsim.Sim;

/** Notices unsynchronised use of a collection by two threads at once. */
public final class Guard {
    private Thread writer, reader;
    private int depth, readers;
    private static boolean on() { return Thread.currentThread() instanceof Sim.T; }
    public void w(String what) {
        if (!on()) return;
        Thread t = Thread.currentThread();
        if (writer != null && writer != t || readers > 0 && reader != t) bad(what);
        if (writer == t) { depth++; return; }
        writer = t;
        depth = 1;
        Sim.y();
    }
    public void we() {
        if (!on() || writer != Thread.currentThread()) return;
        if (depth == 1) Sim.y();
        if (--depth == 0) writer = null;
    }
    public void r(String what) {
        if (!on()) return;
        Thread t = Thread.currentThread();
        if (writer != null && writer != t) bad(what);
        reader = t;
        readers++;
        if (readers == 1) Sim.y();
    }
    public void re() {
        if (!on()) return;
        if (readers > 0) readers--;
    }
    private void bad(String what) {
        Sim s = Sim.current();
        if (s != null) s.fail("data race: " + what + " used by two threads at once");
    }
}
