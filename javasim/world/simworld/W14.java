package simworld;

import com.google.protobuf.Timestamp;
import io.envoyproxy.pgv.*;
import java.math.BigInteger;
import java.util.*;
import pgvsim.*;

/** Rules on the current time, judged against the readings the clock had during each call. */
public final class W14 extends World {
    final ReflectiveValidatorIndex idx = new ReflectiveValidatorIndex();
    final Map<Class<?>, Validator<?>> kept = new HashMap<>();
    final Map<String, Object> old = new HashMap<>();
    final StringBuilder log = new StringBuilder();

    static final BigInteger G = BigInteger.valueOf(1_000_000_000L);
    static BigInteger big(long s, long n) { return BigInteger.valueOf(s).multiply(G).add(BigInteger.valueOf(n)); }
    static BigInteger big(Timestamp t) { return big(t.getSeconds(), t.getNanos()); }

    private static Timestamp time(String w, long now) {
        if (w.equals("none")) return null;
        long s, n;
        if (w.startsWith("a")) {
            String[] x = w.substring(1).split("\\.");
            s = Long.parseLong(x[0]);
            n = Long.parseLong((x[1] + "000000000").substring(0, 9));
        } else {
            long v = now + Long.parseLong(w.substring(1));
            s = Math.floorDiv(v, 1_000_000_000L);
            n = Math.floorMod(v, 1_000_000_000L);
        }
        return Timestamp.newBuilder().setSeconds(s).setNanos((int) n).build();
    }
    private static Object build(String[] o, long now) throws ReflectiveOperationException {
        Class<?> c = Class.forName("sim.now.Jnow$" + o[3], true, W14.class.getClassLoader());
        Object m = c.getDeclaredConstructor().newInstance();
        if (!o[3].equals("Group")) { c.getField("t_").set(m, time(o[5], now)); return m; }
        Timestamp[] t = new Timestamp[5];
        for (int i = 0; i < 5; i++) t[i] = time(o[5 + i], now);
        if (t[0] != null) c.getField("ts_").set(m, t[1] == null ? Collections.singletonList(t[0]) : Arrays.asList(t[0], time("r-3000000000000", now), t[1]));
        if (t[2] != null) c.getField("tm_").set(m, Collections.singletonMap(4, t[2]));
        if (t[3] != null) c.getField(t[3].getNanos() % 2 == 0 ? "a_" : "b_").set(m, t[3]);
        if (t[4] != null) {
            Class<?> q = Class.forName("sim.now.Jnow$Recent", true, W14.class.getClassLoader());
            Object x = q.getDeclaredConstructor().newInstance();
            q.getField("t_").set(x, t[4]);
            c.getField("r_").set(m, x);
        }
        return m;
    }
    @Override public void setup() throws Exception {
        for (String[] o : plan.ops) if (o[2].equals("old")) old.put(String.join(" ", Arrays.copyOfRange(o, 3, 4)) + Arrays.toString(Arrays.copyOfRange(o, 5, o.length)), build(o, plan.clock));
    }
    // ---- the model: +1 accepted for sure, -1 rejected for sure, 0 either
    static final class Part {
        final String field;
        final int v;
        Part(String f, int v) { field = f; this.v = v; }
    }
    private static int before(BigInteger t, BigInteger lo, BigInteger hi) { return t.compareTo(lo) < 0 ? 1 : t.compareTo(hi) >= 0 ? -1 : 0; }
    private static int after(BigInteger t, BigInteger lo, BigInteger hi) { return t.compareTo(hi) > 0 ? 1 : t.compareTo(lo) <= 0 ? -1 : 0; }
    private static int within(BigInteger t, BigInteger lo, BigInteger hi, BigInteger d) {
        BigInteger a = t.subtract(lo).abs(), b = t.subtract(hi).abs();
        BigInteger most = a.max(b), least = t.compareTo(lo) >= 0 && t.compareTo(hi) <= 0 ? BigInteger.ZERO : a.min(b);
        return most.compareTo(d) < 0 ? 1 : least.compareTo(d) > 0 ? -1 : 0;
    }
    private static int and(int a, int b) { return Math.min(a, b); }
    private static int one(String cls, Timestamp x, BigInteger lo, BigInteger hi) {
        if (x == null) return cls.equals("Must") ? -1 : 1;
        BigInteger t = big(x);
        switch (cls) {
            case "Before": case "Must": return before(t, lo, hi);
            case "After": return after(t, lo, hi);
            case "Near": return within(t, lo, hi, big(5, 0));
            case "NearFine": return within(t, lo, hi, big(0, 250_000_000));
            case "NearFar": return within(t, lo, hi, big(2_000_000_000L, 1));
            case "Recent": return and(before(t, lo, hi), within(t, lo, hi, big(60, 0)));
            case "Soon": return and(after(t, lo, hi), within(t, lo, hi, big(3600, 0)));
            default: throw new IllegalArgumentException(cls);
        }
    }
    @SuppressWarnings("unchecked")
    private static List<Part> parts(String cls, Object m, BigInteger lo, BigInteger hi) throws ReflectiveOperationException {
        List<Part> l = new ArrayList<>();
        Class<?> c = m.getClass();
        if (!cls.equals("Group")) { l.add(new Part(".sim.now." + cls + ".t", one(cls, (Timestamp) c.getField("t_").get(m), lo, hi))); return l; }
        for (Timestamp t : (List<Timestamp>) c.getField("ts_").get(m)) l.add(new Part(".sim.now.Group.ts", before(big(t), lo, hi)));
        for (Timestamp t : ((Map<Integer, Timestamp>) c.getField("tm_").get(m)).values()) l.add(new Part(".sim.now.Group.tm", after(big(t), lo, hi)));
        Timestamp a = (Timestamp) c.getField("a_").get(m), b = (Timestamp) c.getField("b_").get(m);
        if (a != null) l.add(new Part(".sim.now.Group.a", within(big(a), lo, hi, big(2, 0))));
        else if (b != null) l.add(new Part(".sim.now.Group.b", after(big(b), lo, hi)));
        Object r = c.getField("r_").get(m);
        if (r != null) l.add(new Part(".sim.now.Recent.t", one("Recent", (Timestamp) r.getClass().getField("t_").get(r), lo, hi)));
        return l;
    }
    @SuppressWarnings({"unchecked", "rawtypes"})
    @Override public void op(String[] o, int k) throws Exception {
        long now = Sim.mark();
        Object m = o[2].equals("old") ? old.get(o[3] + Arrays.toString(Arrays.copyOfRange(o, 5, o.length))) : build(o, now);
        String text = m.toString();
        Sim.mark();
        Throwable t = null;
        try {
            Validator v;
            if (o[4].equals("kept")) {
                v = kept.get(m.getClass());
                if (v == null) { v = idx.validatorFor(m); kept.put(m.getClass(), v); }
            } else v = idx.validatorFor(m.getClass());
            if (o[4].equals("bool")) { if (!v.isValid(m)) t = new ValidationException("?", "?", "?"); } else v.assertValid(m);
        } catch (Sim.Death d) {
            throw d;
        } catch (Throwable e) {
            t = e;
        }
        Sim.T me = (Sim.T) Thread.currentThread();
        // a clock of milliseconds shows the start of the one it is in
        BigInteger lo = BigInteger.valueOf(Math.floorDiv(me.lo, 1_000_000L) * 1_000_000L), hi = BigInteger.valueOf(me.hi);
        List<Part> ps = parts(o[3], m, lo, hi);
        int all = 1;
        boolean named = false;
        for (Part p : ps) {
            all = Math.min(all, p.v);
            if (t instanceof ValidationException && p.v <= 0 && (o[4].equals("bool") || ((ValidationException) t).getField().startsWith(p.field))) named = true;
        }
        String what = String.join(" ", o) + " = " + m + " with the clock from " + show(me.lo) + " to " + show(me.hi);
        String got = t == null ? "accepted" : t instanceof ValidationException ? "rejected" : t.toString();
        log.append(k).append(' ').append(got).append('\n');
        hit(all == 0 ? "either" : got.equals("accepted") || got.equals("rejected") ? got : "exceptions");
        if (t != null && !(t instanceof ValidationException)) {
            StackTraceElement[] st = t.getStackTrace();
            sim.fail(what + ": " + t + (st.length > 0 ? " at " + st[0] : ""));
        } else if (all > 0 && t != null) sim.fail(what + ": rejected (" + t.getMessage() + "), though it meets its rules at every moment of the call");
        else if (all < 0 && t == null) sim.fail(what + ": accepted, though it breaks its rules at every moment of the call");
        else if (t != null && !named) sim.fail(what + ": rejected for " + ((ValidationException) t).getField() + ", which meets its rules");
        if (!m.toString().equals(text)) sim.fail(what + ": the message was modified");
    }
    private static String show(long n) { return Math.floorDiv(n, 1_000_000_000L) + "." + String.format("%09d", Math.floorMod(n, 1_000_000_000L)); }
    @Override public String judge() { return null; }
    @Override public String outcome() { return log.toString(); }
}
