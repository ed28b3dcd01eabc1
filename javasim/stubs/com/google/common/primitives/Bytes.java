package com.google.common.primitives;

public final class Bytes {
    private Bytes() { }
    public static int indexOf(byte[] a, byte b) { for (int i = 0; i < a.length; i++) if (a[i] == b) return i; return -1; }
    public static int indexOf(byte[] a, byte[] t) {
        if (t.length == 0) return 0;
        outer: for (int i = 0; i < a.length - t.length + 1; i++) {
            for (int j = 0; j < t.length; j++) if (a[i + j] != t[j]) continue outer;
            return i;
        }
        return -1;
    }
    public static boolean contains(byte[] a, byte b) { return indexOf(a, b) >= 0; }
}
