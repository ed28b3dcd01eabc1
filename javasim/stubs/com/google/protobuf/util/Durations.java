package com.google.protobuf.util;

import com.google.protobuf.Duration;
import java.util.Comparator;

public final class Durations {
    private Durations() { }
    public static final Duration ZERO = Duration.getDefaultInstance();
    static final long MAX = 315576000000L;
    private static final Comparator<Duration> CMP = (Comparator<Duration> & java.io.Serializable) (a, b) -> {
        checkValid(a);
        checkValid(b);
        int c = Long.compare(a.getSeconds(), b.getSeconds());
        return c != 0 ? c : Integer.compare(a.getNanos(), b.getNanos());
    };
    public static Comparator<Duration> comparator() { return CMP; }
    public static int compare(Duration a, Duration b) { return CMP.compare(a, b); }
    public static boolean isValid(Duration d) { return isValid(d.getSeconds(), d.getNanos()); }
    public static boolean isValid(long s, int n) {
        if (s < -MAX || s > MAX || n < -999999999L || n >= 1000000000) return false;
        return !(s < 0 && n > 0 || s > 0 && n < 0);
    }
    public static boolean isNegative(Duration d) { checkValid(d); return d.getSeconds() == 0 ? d.getNanos() < 0 : d.getSeconds() < 0; }
    public static boolean isPositive(Duration d) { return !isNegative(d) && !d.equals(ZERO); }
    public static Duration checkValid(Duration d) { if (!isValid(d)) throw new IllegalArgumentException("Duration is not valid: " + d); return d; }
    static Duration of(long s, long n) {
        s = Math.addExact(s, n / 1000000000L);
        n %= 1000000000L;
        if (s > 0 && n < 0) { n += 1000000000L; s--; }
        if (s < 0 && n > 0) { n -= 1000000000L; s++; }
        return checkValid(Duration.newBuilder().setSeconds(s).setNanos((int) n).build());
    }
    public static Duration fromSeconds(long s) { return of(s, 0); }
    public static Duration fromMillis(long ms) { return of(ms / 1000, ms % 1000 * 1000000); }
    public static Duration fromMicros(long us) { return of(us / 1000000, us % 1000000 * 1000); }
    public static Duration fromNanos(long ns) { return of(ns / 1000000000, ns % 1000000000); }
    public static long toSeconds(Duration d) { return checkValid(d).getSeconds(); }
    public static long toMillis(Duration d) { checkValid(d); return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000L), d.getNanos() / 1000000); }
    public static long toMicros(Duration d) { checkValid(d); return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000000L), d.getNanos() / 1000); }
    public static long toNanos(Duration d) { checkValid(d); return Math.addExact(Math.multiplyExact(d.getSeconds(), 1000000000L), d.getNanos()); }
    public static double toSecondsAsDouble(Duration d) { checkValid(d); return d.getSeconds() + d.getNanos() / 1e9; }
    public static Duration add(Duration a, Duration b) { checkValid(a); checkValid(b); return of(Math.addExact(a.getSeconds(), b.getSeconds()), (long) a.getNanos() + b.getNanos()); }
    public static Duration subtract(Duration a, Duration b) { checkValid(a); checkValid(b); return of(Math.subtractExact(a.getSeconds(), b.getSeconds()), (long) a.getNanos() - b.getNanos()); }
    public static String toString(Duration d) {
        checkValid(d);
        long s = d.getSeconds();
        int n = d.getNanos();
        StringBuilder r = new StringBuilder();
        if (s < 0 || n < 0) { r.append('-'); s = -s; n = -n; }
        r.append(s);
        if (n != 0) { r.append('.'); r.append(Timestamps.frac(n)); }
        return r.append('s').toString();
    }
}
