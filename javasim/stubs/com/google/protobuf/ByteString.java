package com.google.protobuf;

import java.nio.charset.StandardCharsets;
import java.util.Arrays;
import java.util.Iterator;

public final class ByteString implements Iterable<Byte> {
    public static final ByteString EMPTY = new ByteString(new byte[0]);
    private final byte[] b;
    private ByteString(byte[] b) { this.b = b; }
    public static ByteString copyFrom(byte[] b) { return new ByteString(b.clone()); }
    public static ByteString copyFrom(byte[] b, int o, int n) { return new ByteString(Arrays.copyOfRange(b, o, o + n)); }
    public static ByteString copyFrom(String s, java.nio.charset.Charset c) { return new ByteString(s.getBytes(c)); }
    public static ByteString copyFromUtf8(String s) { return new ByteString(s.getBytes(StandardCharsets.UTF_8)); }
    public int size() { return b.length; }
    public byte byteAt(int i) { return b[i]; }
    public boolean isEmpty() { return b.length == 0; }
    public byte[] toByteArray() { return b.clone(); }
    public String toStringUtf8() { return new String(b, StandardCharsets.UTF_8); }
    public String toString(java.nio.charset.Charset c) { return new String(b, c); }
    public boolean startsWith(ByteString p) { return p.b.length <= b.length && Arrays.equals(p.b, Arrays.copyOf(b, p.b.length)); }
    public boolean endsWith(ByteString p) { return p.b.length <= b.length && Arrays.equals(p.b, Arrays.copyOfRange(b, b.length - p.b.length, b.length)); }
    public ByteString substring(int f) { return substring(f, b.length); }
    public ByteString substring(int f, int t) { return copyFrom(b, f, t - f); }
    public ByteString concat(ByteString o) { byte[] r = Arrays.copyOf(b, b.length + o.b.length); System.arraycopy(o.b, 0, r, b.length, o.b.length); return new ByteString(r); }
    public java.nio.ByteBuffer asReadOnlyByteBuffer() { return java.nio.ByteBuffer.wrap(b).asReadOnlyBuffer(); }
    public void copyTo(byte[] t, int o) { System.arraycopy(b, 0, t, o, b.length); }
    @Override public Iterator<Byte> iterator() { return new Iterator<Byte>() { int i; @Override public boolean hasNext() { return i < b.length; } @Override public Byte next() { return b[i++]; } }; }
    @Override public boolean equals(Object o) { return o instanceof ByteString && Arrays.equals(b, ((ByteString) o).b); }
    @Override public int hashCode() { return Arrays.hashCode(b); }
    @Override public String toString() { return "<ByteString size=" + b.length + " " + Arrays.toString(b) + ">"; }
}
