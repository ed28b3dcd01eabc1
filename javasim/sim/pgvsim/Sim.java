package pgvsim;

import java.io.File;
import java.io.IOException;
import java.nio.file.Files;
import java.util.*;
import java.util.concurrent.CompletableFuture;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.Future;
import java.util.concurrent.Semaphore;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.*;

/**
 * Runs the threads of one history, one at a time. Instrumented code calls
 * {@link #y} wherever another thread may take over; locks, waiting and the
 * clock of instrumented code lead here as well.
 */
public final class Sim {
    /** Ends a thread of a history that is over. */
    public static final class Death extends Error {
        Death() { super("history over", null, false, false); }
    }
    public static final class T extends Thread {
        public final Sim sim;
        public final int id;
        Runnable body;
        volatile boolean token;
        boolean alive = true, blocked;
        boolean lost;     // really blocked, outside the simulator's control
        int mask;
        public Throwable failed;
        public Object current;   // what the world says it is doing
        public long lo, hi;      // the clock's extremes since the world last set them
        public int fuse = -1;    // calls until this thread runs out of stack or memory
        public Error blown;      // what it then got
        T(Sim s, int id) { super("s" + NAMES.getAndIncrement() + "-" + id); sim = s; this.id = id; setDaemon(true); }
        @Override public void run() {
            try {
                await();
                body.run();
            } catch (Death d) {
                // the history is over
            } catch (Throwable t) {
                failed = t;
            }
            sim.ended(this);
        }
        void await() {
            while (!token) LockSupport.park(this);
            token = false;
            if (sim.dead) throw new Death();
        }
    }
    static final class Mon { T owner; int count; final Object o; Mon(Object o) { this.o = o; } }

    private static final java.util.concurrent.atomic.AtomicInteger NAMES = new java.util.concurrent.atomic.AtomicInteger();
    public final Plan plan;
    public T[] th;
    final Rng rng;
    volatile int now = -1;
    public int step = 1, switches, blocks;
    int last, ix, ij;
    static final int LIMIT = 4000000;
    volatile boolean dead, over;
    public volatile String bad;
    public final List<int[]> trace = new ArrayList<>();
    long clock, elapsed;   // the wall clock, and the time since the start that no change of the clock touches
    public int lostCount, jumped;
    private boolean quiet;
    private int calm;
    public long moved;   // how far the clock went, both ways
    private final IdentityHashMap<Object, Mon> mons = new IdentityHashMap<>();
    private final Thread main = Thread.currentThread();
    public final int bins;
    private final IdentityHashMap<Object, Integer> serial = new IdentityHashMap<>();

    private static final java.lang.management.ThreadMXBean CPU = java.lang.management.ManagementFactory.getThreadMXBean();
    static volatile Sim cur;
    public static Sim current() { return cur; }

    public Sim(Plan p) {
        plan = p;
        rng = new Rng(p.seed);
        bins = new int[]{1, 2, 4, 16}[rng.n(4)];
        clock = p.clock;
        TimeZone.setDefault(TimeZone.getTimeZone(p.zone));
        cur = this;
    }
    /** Runs a body with nobody else about: no switch, no fault, and the clock stands still. */
    public void calmly(Runnable body) {
        quiet = true;
        run(List.of(body));
        quiet = false;
    }
    /** Runs the bodies to their end under the plan's schedule. */
    public void run(List<Runnable> bodies) {
        over = false;
        th = new T[bodies.size()];
        for (int i = 0; i < th.length; i++) { th[i] = new T(this, i); th[i].body = bodies.get(i); }
        for (T t : th) t.start();
        int to = quiet ? 0 : pick(null);
        if (!quiet) trace.add(new int[]{step, to});
        give(to);
        int still = 0, all = 0, at = -1, who = -1;
        long cpu = 0, since = 0;
        while (!over) {
            LockSupport.parkNanos(20_000_000L);
            if (over) break;
            // a thread that waits for something no seam covers
            int n = now;
            if (n >= 0 && n == who && at == step + calm && stuck(th[n])) {
                if (++still >= 10) { lose(th[n]); still = 0; }
            } else if (n >= 0 && n == who && at == step + calm) {
                // in a native wait, or in a loop without a seam
                // (a thread that merely gets no processor is ready to run)
                if (all == 0) since = CPU.getThreadCpuTime(th[n].getId());
                if (++all > 1500 && (all > 15000 || CPU.getThreadCpuTime(th[n].getId()) - since > 10_000_000_000L)) {
                    fatal("hang: a thread makes no step");
                    break;
                }
                if (++still > 45 && still <= 60 && ready(th[n])) still = 0;
                if (still == 50) cpu = CPU.getThreadCpuTime(th[n].getId());
                else if (still == 60 && CPU.getThreadCpuTime(th[n].getId()) - cpu < 1_000_000L) { lose(th[n]); still = all = 0; }
            } else still = all = 0;
            at = step + calm;
            who = n;
        }
        for (T t : th) {
            if (t.lost || dead) continue;
            try { t.join(10_000); } catch (InterruptedException e) { throw new IllegalStateException(e); }
        }
        cur = null;
    }
    /** Whether the system would run the thread now if it had a processor. */
    private static boolean ready(T t) {
        File[] d = new File("/proc/self/task").listFiles();
        if (d != null) for (File f : d) try {
            if (!new String(Files.readAllBytes(new File(f, "comm").toPath())).trim().equals(t.getName())) continue;
            String s = new String(Files.readAllBytes(new File(f, "stat").toPath()));
            char c = s.charAt(s.lastIndexOf(')') + 2);
            if (c == 'R' || c == 'D') return true;
        } catch (IOException e) {
            // it has ended
        }
        return false;
    }
    private boolean stuck(T t) {
        Thread.State s = t.getState();
        return s == Thread.State.BLOCKED || s == Thread.State.WAITING && LockSupport.getBlocker(t) != t || s == Thread.State.TIMED_WAITING;
    }
    private synchronized void lose(T t) {
        lostCount++;
        t.lost = true;
        t.blocked = true;
        int to = pick(t);
        if (to < 0) {
            // nobody left who could let it go on
            fatal("deadlock: a thread waits for ever");
            return;
        }
        trace.add(new int[]{step, to});
        give(to);
    }
    private void give(int to) {
        now = to;
        th[to].token = true;
        LockSupport.unpark(th[to]);
    }
    private int pick(T not) {
        int[] c = new int[th.length];
        int k = 0;
        for (T t : th) if (t.alive && !t.blocked && t != not) c[k++] = t.id;
        if (k == 0) return -1;
        if (plan.explicit) {
            while (ix < plan.sw.size() && plan.sw.get(ix)[0] <= step) {
                int t = plan.sw.get(ix++)[1];
                for (int i = 0; i < k; i++) if (c[i] == t) return t;
            }
            return c[0];
        }
        return c[rng.n(k)];
    }
    private void hand(T me, int to) {
        if (to == me.id) return;
        trace.add(new int[]{step, to});
        switches++;
        last = step;
        give(to);
        me.await();
    }
    private void tick(T me) {
        if (dead) throw new Death();
        if (now != me.id) {
            // came back from a wait outside the simulator's control
            synchronized (this) { me.lost = false; me.blocked = false; }
            me.await();
        }
        if (quiet) { if (++calm > LIMIT) { fatal("hang: step limit reached"); throw new Death(); } return; }
        clock += plan.tick;
        elapsed += plan.tick;
        moved += plan.tick;
        if (++step > LIMIT) { fatal("hang: step limit reached"); throw new Death(); }
        while (ij < plan.jumps.size() && plan.jumps.get(ij)[0] <= step) { long d = plan.jumps.get(ij++)[1]; clock += d; moved += Math.abs(d); jumped++; }
        told();
    }
    private void told() { for (T t : th) { if (clock < t.lo) t.lo = clock; if (clock > t.hi) t.hi = clock; } }
    /** The clock's reading; from here on the thread keeps track of its extremes. */
    public static long mark() { T me = me(); return me.lo = me.hi = me.sim.clock; }
    private void yield_(T me) {
        tick(me);
        if (quiet) return;
        if (plan.explicit) {
            if (ix < plan.sw.size() && plan.sw.get(ix)[0] <= step) { int to = pick(null); if (to >= 0) hand(me, to); }
            return;
        }
        if (rng.n(1000) < plan.permille || step - last > 20000) {
            last = step;
            int to = pick(null);
            if (to >= 0) hand(me, to);
        }
    }
    void block(T me) {
        tick(me);
        blocks++;
        me.blocked = true;
        int to = pick(me);
        if (to < 0) {
            for (T t : th) if (t.lost) { give0(me); return; }
            fatal("deadlock: every thread waits for another");
            throw new Death();
        }
        hand(me, to);
    }
    private void give0(T me) { me.blocked = false; }
    private void wake() { for (T t : th) if (!t.lost) t.blocked = false; }
    private void fatal(String what) {
        if (bad == null) bad = what;
        finish();
    }
    public void fail(String what) { if (bad == null) bad = what; }
    private void finish() {
        dead = true;
        over = true;
        for (T t : th) { t.token = true; LockSupport.unpark(t); }
        LockSupport.unpark(main);
    }
    private void ended(T me) {
        me.alive = false;
        if (dead) return;
        wake();
        if (quiet) { over = true; LockSupport.unpark(main); return; }
        step++;
        int to = pick(me);
        if (to < 0) {
            boolean any = false;
            for (T t : th) any |= t.alive;
            if (!any) { over = true; LockSupport.unpark(main); } else fatal("deadlock: a thread waits for ever");
            return;
        }
        trace.add(new int[]{step, to});
        give(to);
    }
    private static T me() {
        Thread t = Thread.currentThread();
        return t instanceof T ? (T) t : null;
    }

    // ---- called by the world, the stubs and instrumented code
    public static void y() {
        T me = me();
        if (me != null && me.mask == 0) me.sim.yield_(me);
    }
    /** Before code under test calls other such code: stack or memory may run out here. */
    public static void call() {
        T me = me();
        if (me == null || me.mask != 0) return;
        if (me.fuse >= 0 && me.fuse-- == 0) throw me.blown = me.sim.step % 2 == 0 ? new StackOverflowError("injected") : new OutOfMemoryError("injected");
        me.sim.yield_(me);
    }
    public static void mask() { T me = me(); if (me != null) me.mask++; }
    public static void unmask() { T me = me(); if (me != null) me.mask--; }
    /** Waits until the condition holds; the world's own waiting. */
    public static void until(java.util.function.BooleanSupplier c) {
        T me = me();
        while (!c.getAsBoolean()) me.sim.block(me);
    }
    public static void progress() { T me = me(); if (me != null) me.sim.wake(); }

    private static Mon mon(Sim s, Object o) {
        Mon m = s.mons.get(o);
        if (m == null) s.mons.put(o, m = new Mon(o));
        return m;
    }
    public static void enter(Object o) {
        if (o == null) throw new NullPointerException();
        T me = me();
        if (me == null) return;
        y();
        Mon m = mon(me.sim, o);
        while (m.owner != null && m.owner != me) me.sim.block(me);
        m.owner = me;
        m.count++;
    }
    public static void exit(Object o) {
        T me = me();
        if (me == null) return;
        Mon m = mon(me.sim, o);
        if (m.owner != me) { if (me.sim.dead) throw new Death(); throw new IllegalMonitorStateException(); }
        if (--m.count == 0) { m.owner = null; me.sim.wake(); y(); }
    }
    public static boolean held(Object o) {
        T me = me();
        return me != null && mon(me.sim, o).owner == me;
    }
    public static void wait_(Object o) { wait_(o, 0); }
    public static void wait_(Object o, long ms) {
        T me = me();
        if (me == null) return;
        Mon m = mon(me.sim, o);
        if (m.owner != me) throw new IllegalMonitorStateException();
        // a spurious wakeup, which every correct caller expects
        int c = m.count;
        m.count = 0; m.owner = null;
        me.sim.wake();
        me.sim.block(me);
        while (m.owner != null) me.sim.block(me);
        m.owner = me; m.count = c;
    }
    public static void wait_(Object o, long ms, int ns) { wait_(o, ms); }
    public static void notify_(Object o) { T me = me(); if (me != null) { if (mon(me.sim, o).owner != me) throw new IllegalMonitorStateException(); me.sim.wake(); } }
    public static void sleep(long ms) { T me = me(); if (me != null) { me.sim.clock += ms * 1_000_000L; me.sim.elapsed += ms * 1_000_000L; me.sim.told(); y(); } }
    public static void sleep(TimeUnit u, long n) { sleep(u.toMillis(n)); }
    public static void relax() {
        T me = me();
        if (me == null) return;
        // a spinning thread waits for another
        int to = me.sim.pickOther(me);
        me.sim.tick(me);
        if (to >= 0) me.sim.hand(me, to);
    }
    private int pickOther(T me) { return pick(me); }

    public static void lock(Lock l) {
        T me = me();
        if (me == null) { l.lock(); return; }
        y();
        while (!l.tryLock()) me.sim.block(me);
    }
    public static boolean tryLock(Lock l, long n, TimeUnit u) { y(); return l.tryLock(); }
    public static void unlock(Lock l) {
        l.unlock();
        progress();
        y();
    }
    public static long writeLock(StampedLock l) { T me = me(); long s; y(); while ((s = l.tryWriteLock()) == 0) { if (me == null) Thread.onSpinWait(); else me.sim.block(me); } return s; }
    public static long readLock(StampedLock l) { T me = me(); long s; y(); while ((s = l.tryReadLock()) == 0) { if (me == null) Thread.onSpinWait(); else me.sim.block(me); } return s; }
    public static void unlockWrite(StampedLock l, long s) { l.unlockWrite(s); progress(); y(); }
    public static void unlockRead(StampedLock l, long s) { l.unlockRead(s); progress(); y(); }
    public static void unlockAny(StampedLock l, long s) { l.unlock(s); progress(); y(); }
    public static void await(CountDownLatch l) { T me = me(); y(); while (l.getCount() > 0) me.sim.block(me); }
    public static void countDown(CountDownLatch l) { l.countDown(); progress(); y(); }
    public static void acquire(Semaphore s) { T me = me(); y(); while (!s.tryAcquire()) me.sim.block(me); }
    public static void release(Semaphore s) { s.release(); progress(); y(); }
    public static Object get(Future<?> f) throws java.util.concurrent.ExecutionException, InterruptedException { T me = me(); y(); if (me != null) while (!f.isDone()) me.sim.block(me); return f.get(); }
    public static Object join(CompletableFuture<?> f) { T me = me(); y(); if (me != null) while (!f.isDone()) me.sim.block(me); return f.join(); }
    public static boolean complete(CompletableFuture<Object> f, Object v) { boolean r = f.complete(v); progress(); y(); return r; }
    public static boolean fail(CompletableFuture<?> f, Throwable v) { boolean r = f.completeExceptionally(v); progress(); y(); return r; }
    public static void runTask(java.util.concurrent.FutureTask<?> f) { f.run(); progress(); y(); }

    public static long nanos() { Sim s = cur; return s == null ? System.nanoTime() : s.mono(); }
    private long mono() { return elapsed; }
    public static long clockNanos() { Sim s = cur; return s.clock; }
    public static long millis() { Sim s = cur; if (s == null) return System.currentTimeMillis(); y(); return Math.floorDiv(s.clock, 1_000_000L); }
    public static java.time.Instant instant() { Sim s = cur; if (s == null) return java.time.Instant.now(); y(); return java.time.Instant.ofEpochSecond(Math.floorDiv(s.clock, 1_000_000_000L), Math.floorMod(s.clock, 1_000_000_000L)); }
    public static java.time.Instant instant(java.time.Clock c) { return c instanceof SimClock ? instant() : c.instant(); }
    public static java.time.LocalDateTime localNow() { return zonedNow().toLocalDateTime(); }
    public static java.time.LocalDateTime localNow(java.time.ZoneId z) { return zonedNow(z).toLocalDateTime(); }
    public static java.time.LocalDate today() { return zonedNow().toLocalDate(); }
    public static java.time.LocalDate today(java.time.ZoneId z) { return zonedNow(z).toLocalDate(); }
    public static java.time.ZonedDateTime zonedNow() { return instant().atZone(java.time.ZoneId.systemDefault()); }
    public static java.time.ZonedDateTime zonedNow(java.time.ZoneId z) { return instant().atZone(z); }
    public static java.time.OffsetDateTime offsetNow() { return zonedNow().toOffsetDateTime(); }
    public static java.time.OffsetDateTime offsetNow(java.time.ZoneId z) { return zonedNow(z).toOffsetDateTime(); }
    public static java.time.Clock clockMillis(java.time.ZoneId z) { return java.time.Clock.tick(clockZone(z), java.time.Duration.ofMillis(1)); }
    public static java.time.Clock clockSeconds(java.time.ZoneId z) { return java.time.Clock.tick(clockZone(z), java.time.Duration.ofSeconds(1)); }
    public static Calendar calendar() { Calendar c = Calendar.getInstance(); c.setTimeInMillis(millis()); return c; }
    public static Calendar calendar(TimeZone z) { Calendar c = Calendar.getInstance(z); c.setTimeInMillis(millis()); return c; }
    public static java.time.Clock clockLocal() { return new SimClock(java.time.ZoneId.systemDefault()); }
    public static java.time.Clock clockUtc() { return new SimClock(java.time.ZoneOffset.UTC); }
    public static java.time.Clock clockZone(java.time.ZoneId z) { return new SimClock(z); }
    public static final class SimClock extends java.time.Clock {
        private final java.time.ZoneId z;
        SimClock(java.time.ZoneId z) { this.z = z; }
        @Override public java.time.ZoneId getZone() { return z; }
        @Override public java.time.Clock withZone(java.time.ZoneId q) { return new SimClock(q); }
        @Override public java.time.Instant instant() { return Sim.instant(); }
        @Override public long millis() { return Sim.millis(); }
    }

    /** A hash that does not depend on addresses. */
    public int hash(Object o) {
        if (o instanceof Class) return ((Class<?>) o).getName().hashCode();
        if (o instanceof String || o instanceof Number || o instanceof Enum) return o.hashCode();
        try {
            if (o.getClass().getMethod("hashCode").getDeclaringClass() != Object.class) return o.hashCode();
        } catch (NoSuchMethodException e) {
            throw new IllegalStateException(e);
        }
        return serial.computeIfAbsent(o, k -> serial.size() * 7 + 1);
    }
}
