package pgvsim;

import java.util.*;

/** Histories of a server. */
public final class G10 {
    static final String[] GEN = {"sim.common.Item", "sim.common.Box", "sim.foreign.Jforeign$Plain"};
    static String msg(Rng r) {
        if (r.p(20)) return r.of(GEN) + " " + r.n(60);
        String k = r.of("low", "high", "even", "any");
        boolean ok = r.p(75);
        int v = k.equals("low") ? ok ? r.n(50) : 50 + r.n(50) : k.equals("high") ? ok ? 50 + r.n(50) : r.n(50) : k.equals("even") ? r.n(50) * 2 + (ok ? 0 : 1) : r.n(100);
        return k + " " + v;
    }
    public static List<String> make(Rng r) {
        List<String> l = new ArrayList<>();
        int threads = 1 + r.n(4), calls = r.many(1 + r.n(4), 60);
        l.add("mode c10");
        l.add("threads " + threads);
        l.add("permille " + r.of(0, 10, 40, 120, 300));
        l.add("seed " + (r.next() >>> 1));
        if (r.p(20)) l.add("interceptors 2");
        for (int i = 0; i < calls; i++) {
            StringBuilder b = new StringBuilder("call c" + i);
            if (r.p(15)) b.append(" closefails");
            if (r.p(15)) b.append(" slowclose");
            if (r.p(15)) b.append(" waits");
            if (r.p(12)) b.append(" closes=").append(1 + r.n(3));
            if (r.p(12)) b.append(" throws=").append(1 + r.n(3));
            if (r.p(4)) b.append(" startthrows");
            if (r.p(6)) b.append(" halfthrows");
            l.add(b.toString());
        }
        for (int i = r.of(0, 0, 0, 1, 2); i > 0; i--) l.add("lookfault " + r.n(8));
        for (int i = r.of(0, 0, 0, 1, 2); i > 0; i--) l.add("valfault " + r.n(8));
        // the events of each call in an order a transport could give them, the calls mixed
        List<List<String>> seq = new ArrayList<>();
        for (int i = 0; i < calls; i++) {
            List<String> s = new ArrayList<>();
            s.add("start");
            for (int k = r.n(6); k > 0; k--) s.add(r.p(15) ? "ready" : "msg " + msg(r));
            if (r.p(70)) s.add("half");
            if (r.p(20)) s.add("ready");
            s.add(r.of("cancel", "complete", "complete"));
            seq.add(s);
        }
        mix(r, l, seq, threads, r.p(30));
        return l;
    }
    /** The sequences interleaved; pinned: each of them on one thread. */
    static void mix(Rng r, List<String> l, List<List<String>> seq, int threads, boolean pinned) {
        List<Integer> left = new ArrayList<>();
        for (int i = 0; i < seq.size(); i++) left.add(i);
        while (!left.isEmpty()) {
            int k = r.n(left.size()), i = left.get(k);
            if (seq.get(i).isEmpty()) { left.remove(k); continue; }
            l.add("op " + (pinned ? i % threads : r.n(threads)) + " c" + i + " " + seq.get(i).remove(0));
        }
    }
}
