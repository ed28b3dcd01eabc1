package io.grpc;

public final class Attributes {
    public static final Attributes EMPTY = new Attributes();
    public static final class Key<T> {
        private final String n;
        private Key(String n) { this.n = n; }
        public static <T> Key<T> create(String n) { return new Key<>(n); }
        @Override public String toString() { return n; }
    }
    public <T> T get(Key<T> k) { return null; }
}
