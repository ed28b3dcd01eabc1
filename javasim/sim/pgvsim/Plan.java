package pgvsim;

import java.util.*;

/** A history to run, as text lines; every line but the first few may be dropped. */
public final class Plan {
    public String mode;
    public int threads = 1, permille = 0;
    public long seed = 1, clock = 0, tick = 0;
    public boolean explicit;
    public String zone = "UTC";   // the machine's time zone
    public final List<int[]> sw = new ArrayList<>();
    public final List<long[]> jumps = new ArrayList<>();   // step, nanoseconds
    public final List<String[]> objs = new ArrayList<>();   // everything the world understands
    public final List<String[]> ops = new ArrayList<>();    // op, thread, ...

    public static Plan parse(List<String> lines) {
        Plan p = new Plan();
        for (String l : lines) {
            String[] w = l.trim().split(" ");
            switch (w[0]) {
                case "": break;
                case "mode": p.mode = w[1]; break;
                case "threads": p.threads = Integer.parseInt(w[1]); break;
                case "permille": p.permille = Integer.parseInt(w[1]); break;
                case "seed": p.seed = Long.parseLong(w[1]); break;
                case "clock": p.clock = Long.parseLong(w[1]); p.tick = Long.parseLong(w[2]); break;
                case "zone": p.zone = w[1]; break;
                case "jump": p.jumps.add(new long[]{Long.parseLong(w[1]), Long.parseLong(w[2])}); break;
                case "explicit": p.explicit = true; break;
                case "sw": p.sw.add(new int[]{Integer.parseInt(w[1]), Integer.parseInt(w[2])}); break;
                case "op": p.ops.add(w); break;
                default: p.objs.add(w);
            }
        }
        p.jumps.sort(Comparator.comparingLong(a -> a[0]));
        return p;
    }
    public String text() {
        StringBuilder b = new StringBuilder();
        b.append("mode ").append(mode).append("\nthreads ").append(threads).append("\npermille ").append(permille).append("\nseed ").append(seed).append('\n');
        if (clock != 0 || tick != 0) b.append("clock ").append(clock).append(' ').append(tick).append('\n');
        if (!zone.equals("UTC")) b.append("zone ").append(zone).append('\n');
        for (String[] o : objs) b.append(String.join(" ", o)).append('\n');
        for (String[] o : ops) b.append(String.join(" ", o)).append('\n');
        for (long[] j : jumps) b.append("jump ").append(j[0]).append(' ').append(j[1]).append('\n');
        if (explicit) {
            b.append("explicit\n");
            for (int[] s : sw) b.append("sw ").append(s[0]).append(' ').append(s[1]).append('\n');
        }
        return b.toString();
    }
}
