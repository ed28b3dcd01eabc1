package pgvsim;

import java.util.*;

/** Histories of rules on the current time. */
public final class G14 {
    static final String[] CLASSES = {"Before", "After", "Near", "NearFine", "NearFar", "Recent", "Soon", "Must", "Group"};
    static final long S = 1_000_000_000L;
    /** A timestamp: r, nanoseconds from now; a, seconds and nanoseconds since 1970; none. */
    static String time(Rng r, String cls) {
        if (r.p(5)) return "none";
        if (r.p(12)) return "a" + r.of("-62135596800.0", "253402300799.999999999", "-30000000000.5", "100000000000.1", "-9223372037.0", "9223372036.854775807", "0.0", "-1.999999999", "40000000000.0");
        // near the edges of the class's rules, as far as the clock can be told
        long edge = cls.equals("Near") ? 5 * S : cls.equals("NearFine") ? S / 4 : cls.equals("Recent") ? 60 * S : cls.equals("Soon") ? 3600 * S : cls.equals("Group") ? 2 * S : 0;
        long e = r.of(0L, edge, -edge);
        long d = r.of(1L, 1000L, 2_000_000L, 50_000_000L, S, 10 * S, 4000 * S, 86400 * S, 86400 * 365 * 30 * S);
        return "r" + (e + (r.p(50) ? d : -d) + (r.p(30) ? r.n(3000000) : 0));
    }
    public static List<String> make(Rng r) {
        List<String> l = new ArrayList<>();
        int threads = 1 + r.n(3);
        l.add("mode c14");
        l.add("threads " + threads);
        l.add("permille " + r.of(0, 20, 100, 300));
        l.add("seed " + (r.next() >>> 1));
        // 1971 to 2120, sometimes just beside a whole second
        long at = (31536000L + r.n(1500000) * 3153L) * S + (r.p(30) ? r.of(0, 1, 999_999_999, 999_000_000, 1_000_000) : r.n(1_000_000_000));
        l.add("clock " + at + " " + r.of(0, 0, 1, 1000, 100_000, 2_000_000));
        if (r.p(60)) l.add("zone " + r.of("America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/Berlin", "GMT+14:00"));
        int ops = r.many(2 + r.n(10), 200);
        List<String> cs = new ArrayList<>();
        for (int i = 1 + r.n(3); i > 0; i--) cs.add(r.of(CLASSES));
        for (int i = 0; i < ops; i++) {
            String c = cs.get(r.n(cs.size()));
            StringBuilder b = new StringBuilder("op " + r.n(threads) + " ");
            // messages made before the history begins, or for this call
            b.append(r.of("old", "old", "val")).append(' ').append(c).append(' ').append(r.of("index", "index", "kept", "bool"));
            int k = c.equals("Group") ? 5 : 1;
            for (int j = 0; j < k; j++) b.append(' ').append(k == 5 && r.p(40) ? "none" : time(r, c));
            if (i > 0 && r.p(35)) {
                // an earlier call's message once more
                String[] w = l.get(l.size() - 1).split(" ");
                b = new StringBuilder("op " + r.n(threads) + " " + w[2] + " " + w[3] + " " + r.of("index", "kept"));
                for (int j = 5; j < w.length; j++) b.append(' ').append(w[j]);
            }
            l.add(b.toString());
        }
        for (int i = r.n(5); i > 0; i--) {
            long d = r.of(1L, 1_000_000L, 300_000_000L, S, 7 * S, 65 * S, 4000 * S, 86400 * S, 86400L * 365 * 10 * S);
            l.add("jump " + (2 + r.n(ops * 40)) + " " + (r.p(60) ? d : -d));
        }
        return l;
    }
}
