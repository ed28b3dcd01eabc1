package io.grpc;

import java.util.*;

public final class Metadata {
    public static final String BINARY_HEADER_SUFFIX = "-bin";
    public interface AsciiMarshaller<T> { String toAsciiString(T v); T parseAsciiString(String s); }
    public interface BinaryMarshaller<T> { byte[] toBytes(T v); T parseBytes(byte[] b); }
    public static final AsciiMarshaller<String> ASCII_STRING_MARSHALLER = new AsciiMarshaller<String>() {
        @Override public String toAsciiString(String v) { return v; }
        @Override public String parseAsciiString(String s) { return s; }
    };
    public static final BinaryMarshaller<byte[]> BINARY_BYTE_MARSHALLER = new BinaryMarshaller<byte[]>() {
        @Override public byte[] toBytes(byte[] v) { return v; }
        @Override public byte[] parseBytes(byte[] b) { return b; }
    };
    public static final class Key<T> {
        private final String name;
        private Key(String n) { name = n.toLowerCase(Locale.ROOT); }
        public static <T> Key<T> of(String n, AsciiMarshaller<T> m) { return new Key<>(n); }
        public static <T> Key<T> of(String n, BinaryMarshaller<T> m) { return new Key<>(n); }
        public static <T> Key<T> of(String n) { return new Key<>(n); }
        public String name() { return name; }
        public String originalName() { return name; }
        @Override public boolean equals(Object o) { return o instanceof Key && ((Key<?>) o).name.equals(name); }
        @Override public int hashCode() { return name.hashCode(); }
        @Override public String toString() { return "Key{name='" + name + "'}"; }
    }
    private final Map<String, List<Object>> m = new LinkedHashMap<>();
    public <T> void put(Key<T> k, T v) { m.computeIfAbsent(k.name, x -> new ArrayList<>()).add(Objects.requireNonNull(v)); }
    @SuppressWarnings("unchecked") public <T> T get(Key<T> k) { List<Object> l = m.get(k.name); return l == null ? null : (T) l.get(l.size() - 1); }
    @SuppressWarnings("unchecked") public <T> Iterable<T> getAll(Key<T> k) { return (List<T>) m.get(k.name); }
    public boolean containsKey(Key<?> k) { return m.containsKey(k.name); }
    @SuppressWarnings("unchecked") public <T> Iterable<T> removeAll(Key<T> k) { return (List<T>) m.remove(k.name); }
    public <T> void discardAll(Key<T> k) { m.remove(k.name); }
    public Set<String> keys() { return Collections.unmodifiableSet(m.keySet()); }
    public void merge(Metadata o) { for (Map.Entry<String, List<Object>> e : o.m.entrySet()) m.computeIfAbsent(e.getKey(), x -> new ArrayList<>()).addAll(e.getValue()); }
    /** How many values there are in all. */
    public int size() { int n = 0; for (List<Object> l : m.values()) n += l.size(); return n; }
    @Override public String toString() { return "Metadata(" + m + ")"; }
}
