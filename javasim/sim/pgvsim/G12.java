package pgvsim;

import java.util.*;

/** Histories of validator indexes. */
public final class G12 {
    public static final String[] CLASSES = {"fix.one.Fixone$A", "fix.one.Fixone$B", "fix.one.Fixone$B$C", "fix.one.Fixone$B$C$D", "fix.one.Fixone$Ign", "fix.one.Fixone$Dis", "fix.two.A", "fix.two.B", "fix.two.B$C", "fix.two.Dis",
        "fix.plain.Fixplain$Plain", "fix.plain.Fixplain$Other$In", "fix.trap.NoMethod", "fix.trap.Hidden", "fix.trap.Nul", "fix.trap.Nul$In", "fix.trap.Throwing", "fix.trap.Init", "fix.trap.Orphan", "fix.trap.Orphan$In"};
    static final String[] BOOT = {"!java.lang.String", "!java.lang.Integer", "!bytes"};
    public static List<String> make(Rng r) {
        List<String> l = new ArrayList<>();
        int threads = 1 + r.n(4);
        l.add("mode c12");
        l.add("threads " + threads);
        l.add("permille " + r.of(0, 10, 40, 120, 300));
        l.add("seed " + (r.next() >>> 1));
        int n = r.of(1, 1, 2, 3);
        for (int i = 0; i < n; i++) {
            String fb = r.of("none", "valid", "invalid", "throw0", "throw1", "throw2", "self" + r.of(CLASSES[0], CLASSES[1], CLASSES[6]));
            if (i > 0 && r.p(60)) fb = "idx" + r.n(i);
            l.add("idx " + r.of("reflective", "reflective", "explicit") + " " + fb);
        }
        // a few classes, so that threads meet
        List<String> cs = new ArrayList<>();
        for (int i = 1 + r.n(4); i > 0; i--) cs.add(r.p(4) ? r.of(BOOT) : r.of("a:", "a:", "b:") + CLASSES[r.p(60) ? r.n(10) : r.n(CLASSES.length)]);
        if (r.p(40)) cs.add(r.of("b:", "a:") + cs.get(0).replaceFirst("^[ab]:", "").replace("!", "fix.one.Fixone$A ").split(" ")[0]);
        if (r.p(45)) for (int i = 1 + r.n(2); i > 0; i--) {
            String c = cs.get(r.n(cs.size()));
            if (c.startsWith("!")) continue;
            l.add("fault " + c.charAt(0) + " " + c.substring(2).replaceAll("\\$.*", "") + "Validator " + r.of("missing", "error", "runtime") + " " + r.of(0, 0, 0, 1, 2) + " " + (1 + r.n(2)));
        }
        boolean crowd = r.p(8);
        // or all the classes there are
        if (crowd) for (String c : CLASSES) if (r.p(80)) cs.add(r.of("a:", "a:", "b:") + c);
        int ops = crowd ? 12 + r.n(40) : r.many(2 + r.n(12), 200), add = 500;
        for (int i = 0; i < ops; i++) {
            String c = cs.get(r.n(cs.size())), t = "op " + r.n(threads) + " ";
            int x = r.n(n);
            switch (r.n(8)) {
                case 0: l.add(t + "look " + x + " " + c + " " + r.n(4)); break;
                case 1: l.add(t + "useslot " + r.n(4) + " " + r.n(100000)); break;
                case 2: l.add(t + "add " + x + " " + c + " " + add++ + " " + r.of("deep", "flat")); break;
                default: l.add(t + "use " + x + " " + c + " " + r.n(100000) + " " + r.of("class", "object", "bool"));
            }
        }
        return l;
    }
}
