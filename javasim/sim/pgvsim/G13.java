package pgvsim;

import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

/** Histories of validations. */
public final class G13 {
    /** What a message's validation gives alone, by class and seed. */
    public static final Map<String, String> ALONE = new ConcurrentHashMap<>();
    private static java.lang.reflect.Method recipe;
    private static final Map<String, String> RECIPE = new HashMap<>();
    /** Fields to take from other seeds so that more of the message's rules are kept. */
    static String recipe(String cls, long seed) {
        return RECIPE.computeIfAbsent(cls + " " + seed, k -> {
            try {
                if (recipe == null) recipe = new Loader(Main.class.getClassLoader()).loadClass("simworld.Alone").getMethod("recipe", String.class, long.class);
                return (String) recipe.invoke(null, cls, seed);
            } catch (ReflectiveOperationException e) {
                throw new IllegalStateException(e);
            }
        });
    }
    static final String[] CLASSES = {"sim.a.Ja$Numbers", "sim.a.Ja$Strings", "sim.a.Ja$Hosts", "sim.a.Ja$Wrapped", "sim.a.Ja$Maps", "sim.a.Ja$MapsEmpty", "sim.a.Ja$Lists", "sim.a.Ja$Uniq", "sim.a.Ja$Node", "sim.a.Ja$Node$Inner",
        "sim.a.Ja$Spans", "sim.a.Ja$JavaOnly", "sim.a.Ja$Sparse", "sim.common.Item", "sim.common.Box", "sim.common.Box$Inner", "sim.common.Off", "sim.common.Ign", "sim.foreign.Jforeign$Plain"};
    private static final Map<String, String[]> MAPS = new HashMap<>();
    /** Sometimes: one of the message's maps made big. */
    static String crowd(Rng r, String cls) {
        String[] fs = MAPS.computeIfAbsent(cls, k -> {
            try {
                return (String[]) new Loader(Main.class.getClassLoader()).loadClass("simworld.Alone").getMethod("maps", String.class).invoke(null, cls);
            } catch (ReflectiveOperationException e) {
                throw new IllegalStateException(e);
            }
        });
        return fs.length == 0 || r.p(50) ? "" : ",*" + r.of(fs) + "=" + (2 + r.n(50)) + ":" + r.n(100000);
    }
    public static List<String> make(Rng r) {
        List<String> l = new ArrayList<>();
        int threads = r.of(1, 2, 2, 3, 4), msgs = 1 + r.n(5), idx = r.of(1, 1, 1, 2);
        l.add("mode c13");
        l.add("threads " + threads);
        l.add("permille " + r.of(0, 5, 20, 60, 150, 300));
        l.add("seed " + (r.next() >>> 1));
        // a few classes, so that calls meet
        List<String> cs = new ArrayList<>();
        boolean maps = r.p(8);
        for (int i = 1 + r.n(3); i > 0; i--) cs.add(maps ? r.of("sim.a.Ja$Maps", "sim.a.Ja$MapsEmpty", "sim.a.Ja$Hosts") : r.of(CLASSES));
        for (int i = 0; i < msgs; i++) {
            String c = cs.get(r.n(cs.size()));
            int seed = r.n(300);
            l.add("msg " + c + " " + seed + " " + (seed % 2 == 0 ? "-" : recipe(c, seed)) + (r.p(maps ? 90 : 30) && c.matches(".*(Maps|Node|Hosts|JavaOnly).*") ? crowd(r, c) + ",^" + (1 + r.n(6)) : ""));
        }
        int ops = r.many(2 + r.n(10), 300);
        List<String> os = new ArrayList<>();
        boolean errs = r.p(35);
        for (int i = 0; i < ops; i++)
            os.add("op " + r.n(threads) + " val " + r.n(msgs) + " " + r.of("index", "index", "direct", "bool", "whole", "kept") + " " + r.n(idx) + (errs && r.p(25) ? " err=" + r.n(r.of(3, 12, 60, 200)) : ""));
        if (r.p(25)) for (int i = 1 + r.n(2); i > 0; i--) l.add("lookfault " + r.n(8));
        l.addAll(os);
        return l;
    }
}
