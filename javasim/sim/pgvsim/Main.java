package pgvsim;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** search MODE BASE FIRST STEP SECONDS | plan MODE BASE INDEX | exec FILE | trace FILE | serve */
public final class Main {
    static Map<String, byte[]> fixA, fixB;
    public static Map<String, byte[]> fix(boolean b) { return b ? fixB : fixA; }

    public static final class Run {
        public String bad;
        public Plan plan;
        public long hash, moved;
        public int steps, switches, blocks, lost, jumped;
        public Map<String, Long> count;
        public World world;
    }
    private static long fnv(long h, String s) {
        for (int i = 0; i < s.length(); i++) h = (h ^ s.charAt(i)) * 1099511628211L;
        return h;
    }
    private interface Doing { void run() throws Exception; }
    private static Runnable doing(Doing d) {
        return () -> {
            try {
                d.run();
            } catch (RuntimeException e) {
                throw e;
            } catch (Exception e) {
                throw new IllegalStateException(e);
            }
        };
    }
    private static void failed(Sim sim) {
        for (Sim.T t : sim.th)
            if (t.failed != null) {
                // the world itself is wrong
                StringWriter sw = new StringWriter();
                t.failed.printStackTrace(new PrintWriter(sw));
                throw new IllegalStateException("the simulation failed: " + sw);
            }
    }
    private static void work(Plan p, World w, Sim sim) {
        Sim.cur = sim;
        List<Runnable> bodies = new ArrayList<>();
        for (int t = 0; t < p.threads; t++) {
            final int id = t;
            bodies.add(() -> {
                for (int i = 0; i < p.ops.size(); i++) {
                    String[] o = p.ops.get(i);
                    if (Integer.parseInt(o[1]) != id) continue;
                    ((Sim.T) Thread.currentThread()).current = i;
                    Sim.y();
                    try {
                        w.op(o, i);
                    } catch (RuntimeException e) {
                        throw e;
                    } catch (Exception e) {
                        throw new IllegalStateException(e);
                    }
                }
            });
        }
        sim.run(bodies);
    }
    /** Runs one history in a fresh copy of the code. */
    public static Run execute(Plan p) {
        Run r = new Run();
        r.plan = p;
        Sim sim = new Sim(p);
        try {
            Loader l = new Loader(Main.class.getClassLoader());
            World w = (World) l.loadClass("simworld.W" + p.mode.substring(1)).getDeclaredConstructor().newInstance();
            w.plan = p;
            w.sim = sim;
            sim.calmly(doing(w::setup));
            if (sim.bad != null) sim.bad = "before it began: " + sim.bad;
            else work(p, w, sim);
            failed(sim);
            r.bad = sim.bad;
            if (r.bad == null) {
                Sim.cur = sim;
                sim.calmly(doing(() -> { String b = w.judge(); if (b != null) sim.bad = b; }));
                failed(sim);
                r.bad = sim.bad;
            }
            r.count = w.count;
            r.world = w;
            long h = fnv(1469598103934665603L, w.outcome());
            for (String[] o : p.ops) h = fnv(h, String.join(" ", o));
            for (String[] o : p.objs) h = fnv(h, String.join(" ", o));
            for (int[] s : sim.trace) h = ((h ^ s[0]) * 1099511628211L ^ s[1]) * 1099511628211L;
            r.hash = h;
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        } catch (Exception e) {
            if (e instanceof RuntimeException) throw (RuntimeException) e;
            throw new IllegalStateException(e);
        } finally {
            Sim.cur = null;
        }
        r.steps = sim.step;
        r.switches = sim.switches;
        r.blocks = sim.blocks;
        r.lost = sim.lostCount;
        r.jumped = sim.jumped;
        r.moved = sim.moved;
        Plan q = Plan.parse(Arrays.asList(p.text().split("\n")));
        q.explicit = true;
        q.sw.clear();
        q.sw.addAll(sim.trace);
        r.plan = q;
        return r;
    }
    static Plan make(String mode, long seed) {
        try {
            List<String> l = (List<String>) Class.forName("pgvsim.G" + mode.substring(1)).getMethod("make", Rng.class).invoke(null, new Rng(seed));
            return Plan.parse(l);
        } catch (java.lang.reflect.InvocationTargetException e) {
            throw new IllegalStateException(e.getCause());
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }
    static long seedOf(long base, long k) { Rng r = new Rng(base * 0x2545f4914f6cdd1dL + k); r.next(); return r.next(); }
    static String line(String s) { return s.replace('\n', ' '); }

    public static void main(String[] a) throws Exception {
        Locale.setDefault(Locale.ROOT);
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        String root = System.getProperty("sim.root");
        Loader.add(Loader.tree(root + "/code", true));
        Loader.add(Loader.tree(root + "/world", false));
        Loader.add(Loader.tree(root + "/gen", true));
        fixA = Loader.tree(root + "/fixa", true);
        fixB = Loader.tree(root + "/fixb", true);
        if (a[0].equals("exec") || a[0].equals("trace")) {
            Plan p = Plan.parse(Files.readAllLines(Paths.get(a[1]), StandardCharsets.UTF_8));
            Run r = execute(p);
            if (a[0].equals("trace")) out.print(r.plan.text());
            else out.println("RESULT " + (r.bad == null ? "ok" : line(r.bad)) + "\nHASH " + Long.toHexString(r.hash) + " steps " + r.steps);
            out.flush();
            System.exit(0);
        }
        if (a[0].equals("serve")) {
            // many histories, for the minimiser
            BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
            List<String> l = new ArrayList<>();
            for (String s; (s = in.readLine()) != null; ) {
                if (!s.equals("END") && !s.equals("TRACE")) { l.add(s); continue; }
                Run r = execute(Plan.parse(l));
                if (s.equals("TRACE")) out.print(r.plan.text());
                out.println("RESULT " + (r.bad == null ? "ok" : line(r.bad)));
                out.flush();
                l.clear();
            }
            System.exit(0);
        }
        String mode = a[1];
        long base = Long.parseLong(a[2]), i = Long.parseLong(a[3]);
        if (a[0].equals("plan")) { out.print(make(mode, seedOf(base, i)).text()); out.flush(); System.exit(0); }
        long inc = Long.parseLong(a[4]);
        double secs = Double.parseDouble(a[5]);
        long t0 = System.nanoTime();
        Set<Long> seen = new HashSet<>();
        Map<String, Long> st = new TreeMap<>();
        long runs = 0, steps = 0, sw = 0, multi = 0, blocks = 0, lost = 0, jumps = 0, ops = 0;
        double moved = 0;
        for (; System.nanoTime() - t0 < secs * 1e9; i += inc) {
            Plan p = make(mode, seedOf(base, i));
            Run r = execute(p);
            runs++;
            ops += p.ops.size();
            steps += r.steps; sw += r.switches; blocks += r.blocks; lost += r.lost; jumps += r.jumped; moved += r.moved / 1e9;
            if (r.switches > p.threads) multi++;
            seen.add(r.hash);
            if (r.count != null) for (Map.Entry<String, Long> e : r.count.entrySet()) st.merge(e.getKey(), e.getValue(), Long::sum);
            if (r.bad != null) {
                out.println("FOUND " + i + " " + line(r.bad));
                out.print(p.text());
                out.println("END");
                break;
            }
        }
        st.put("runs", runs); st.put("steps", steps); st.put("switches", sw); st.put("multi", multi); st.put("distinct", (long) seen.size()); st.put("blocks", blocks);
        st.put("lost", lost); st.put("jumps", jumps); st.put("ops", ops); st.put("simsec", (long) moved);
        StringBuilder b = new StringBuilder("STATS {");
        for (Map.Entry<String, Long> e : st.entrySet()) b.append(b.length() > 7 ? ", " : "").append('"').append(e.getKey()).append("\": ").append(e.getValue());
        out.println(b.append("}"));
        out.flush();
        System.exit(0);
    }
}
