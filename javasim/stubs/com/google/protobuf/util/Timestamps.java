package com.google.protobuf.util;

import com.google.protobuf.Duration;
import com.google.protobuf.Timestamp;
import java.util.Comparator;

public final class Timestamps {
    private Timestamps() { }
    public static final Timestamp EPOCH = Timestamp.getDefaultInstance();
    static final long MIN = -62135596800L, MAX = 253402300799L;
    public static final Timestamp MIN_VALUE = Timestamp.newBuilder().setSeconds(MIN).build(), MAX_VALUE = Timestamp.newBuilder().setSeconds(MAX).setNanos(999999999).build();
    private static final Comparator<Timestamp> CMP = (Comparator<Timestamp> & java.io.Serializable) (a, b) -> {
        checkValid(a);
        checkValid(b);
        int c = Long.compare(a.getSeconds(), b.getSeconds());
        return c != 0 ? c : Integer.compare(a.getNanos(), b.getNanos());
    };
    public static Comparator<Timestamp> comparator() { return CMP; }
    public static int compare(Timestamp a, Timestamp b) { return CMP.compare(a, b); }
    public static boolean isValid(Timestamp t) { return isValid(t.getSeconds(), t.getNanos()); }
    public static boolean isValid(long s, int n) { return s >= MIN && s <= MAX && n >= 0 && n < 1000000000; }
    public static Timestamp checkValid(Timestamp t) { if (!isValid(t)) throw new IllegalArgumentException("Timestamp is not valid: " + t); return t; }
    static Timestamp of(long s, long n) {
        s = Math.addExact(s, Math.floorDiv(n, 1000000000L));
        n = Math.floorMod(n, 1000000000L);
        return checkValid(Timestamp.newBuilder().setSeconds(s).setNanos((int) n).build());
    }
    public static Timestamp fromSeconds(long s) { return of(s, 0); }
    public static Timestamp fromMillis(long ms) { return of(Math.floorDiv(ms, 1000L), Math.floorMod(ms, 1000L) * 1000000L); }
    public static Timestamp fromMicros(long us) { return of(Math.floorDiv(us, 1000000L), Math.floorMod(us, 1000000L) * 1000L); }
    public static Timestamp fromNanos(long ns) { return of(Math.floorDiv(ns, 1000000000L), Math.floorMod(ns, 1000000000L)); }
    public static Timestamp fromDate(java.util.Date d) { return fromMillis(d.getTime()); }
    public static long toSeconds(Timestamp t) { return checkValid(t).getSeconds(); }
    public static long toMillis(Timestamp t) { checkValid(t); return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000L), t.getNanos() / 1000000); }
    public static long toMicros(Timestamp t) { checkValid(t); return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000000L), t.getNanos() / 1000); }
    public static long toNanos(Timestamp t) { checkValid(t); return Math.addExact(Math.multiplyExact(t.getSeconds(), 1000000000L), t.getNanos()); }
    public static Duration between(Timestamp from, Timestamp to) { checkValid(from); checkValid(to); return Durations.of(Math.subtractExact(to.getSeconds(), from.getSeconds()), (long) to.getNanos() - from.getNanos()); }
    public static Timestamp add(Timestamp t, Duration d) { checkValid(t); Durations.checkValid(d); return of(Math.addExact(t.getSeconds(), d.getSeconds()), (long) t.getNanos() + d.getNanos()); }
    public static Timestamp subtract(Timestamp t, Duration d) { checkValid(t); Durations.checkValid(d); return of(Math.subtractExact(t.getSeconds(), d.getSeconds()), (long) t.getNanos() - d.getNanos()); }
    static String frac(int n) { return n % 1000000 == 0 ? String.format("%03d", n / 1000000) : n % 1000 == 0 ? String.format("%06d", n / 1000) : String.format("%09d", n); }
    public static String toString(Timestamp t) {
        checkValid(t);
        String s = java.time.LocalDateTime.ofEpochSecond(t.getSeconds(), 0, java.time.ZoneOffset.UTC).format(java.time.format.DateTimeFormatter.ofPattern("yyyy-MM-dd'T'HH:mm:ss"));
        return s + (t.getNanos() == 0 ? "" : "." + frac(t.getNanos())) + "Z";
    }
}
