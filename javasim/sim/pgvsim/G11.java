package pgvsim;

import java.util.*;

/** Histories of a client. */
public final class G11 {
    public static List<String> make(Rng r) {
        List<String> l = new ArrayList<>();
        int threads = 1 + r.n(4), calls = r.many(1 + r.n(4), 60);
        l.add("mode c11");
        l.add("threads " + threads);
        l.add("permille " + r.of(0, 10, 40, 120, 300));
        l.add("seed " + (r.next() >>> 1));
        if (r.p(20)) l.add("interceptors 2");
        for (int i = 0; i < calls; i++) {
            StringBuilder b = new StringBuilder("call c" + i);
            for (String f : new String[]{"newcall", "start", "half", "cancel", "request", "ready", "listener"}) if (r.p(4)) b.append(" fail=").append(f);
            if (r.p(20)) b.append(" send=").append(1 + r.n(3));
            if (r.p(15)) b.append(" waits");
            if (r.p(15)) b.append(" unready");
            if (r.p(10)) b.append(" nested");
            l.add(b.toString());
        }
        for (int i = r.of(0, 0, 0, 1, 2); i > 0; i--) l.add("lookfault " + r.n(8));
        for (int i = r.of(0, 0, 0, 1, 2); i > 0; i--) l.add("valfault " + r.n(8));
        List<List<String>> seq = new ArrayList<>();
        for (int i = 0; i < calls; i++) {
            List<String> s = new ArrayList<>();
            s.add("new");
            s.add("start");
            for (int k = r.n(7); k > 0; k--) s.add(r.p(30) ? r.of("request " + (1 + r.n(3)), "isready", "compress", "attrs", "in headers", "in message", "in ready") : "msg " + G10.msg(r));
            if (r.p(15)) s.add("cancel");
            if (r.p(70)) s.add("half");
            if (r.p(40)) s.add("in message");
            if (r.p(10)) s.add("msg " + G10.msg(r));
            if (r.p(10)) s.add("cancel");
            s.add("in close");
            seq.add(s);
        }
        G10.mix(r, l, seq, threads, r.p(30));
        return l;
    }
}
