package pgvsim;

/** splitmix64: every choice of a history comes from one of these. */
public final class Rng {
    private long s;
    /** How the entries of maps are put in order; 0: as they come. */
    public long order;
    public Rng(long seed) { s = seed; }
    public long next() {
        long z = (s += 0x9e3779b97f4a7c15L);
        z = (z ^ (z >>> 30)) * 0xbf58476d1ce4e5b9L;
        z = (z ^ (z >>> 27)) * 0x94d049bb133111ebL;
        return z ^ (z >>> 31);
    }
    public int n(int k) { return (int) Long.remainderUnsigned(next(), k); }
    public boolean p(int percent) { return n(100) < percent; }
    public <K, V> java.util.Map<K, V> map(java.util.LinkedHashMap<K, V> x) {
        if (order == 0) return java.util.Collections.unmodifiableMap(x);
        java.util.List<java.util.Map.Entry<K, V>> l = new java.util.ArrayList<>(x.entrySet());
        Rng r = new Rng(order);
        for (int i = l.size(); i > 1; i--) java.util.Collections.swap(l, i - 1, r.n(i));
        java.util.LinkedHashMap<K, V> y = new java.util.LinkedHashMap<>();
        for (java.util.Map.Entry<K, V> e : l) y.put(e.getKey(), e.getValue());
        return java.util.Collections.unmodifiableMap(y);
    }
    private int levels, nodes;
    /** May a message at this depth hold others? Messages are three levels deep, once in a while many more. */
    public boolean deep(int depth) {
        if (levels == 0) levels = p(5) ? 14 : 3;
        return depth < levels && (levels == 3 || nodes++ < 60);
    }
    /** How many entries a list or map gets: a few, once in a while many. */
    public int size(int n, int depth) { return depth == 0 && p(2) ? 9 + n(50) : n(n); }
    /** Many entries like one another, under different keys. */
    @SuppressWarnings("unchecked") public <K, V> void crowd(java.util.Map<K, V> x, int n, K k, V v) {
        for (int i = 0; i < n; i++) x.put((K) (k instanceof String ? (Object) ((String) k + i) : k instanceof Integer ? (Object) ((Integer) k + i) : k instanceof Long ? (Object) ((Long) k + i) : k), v);
    }
    /** How many operations a history has: once in a while very many. */
    public int many(int usual, int most) { return n(70) == 0 ? most / 4 + n(most * 3 / 4) : usual; }
    /** One of the texts, once in a while made long and unlike the others. */
    public String str(String... xs) {
        String s = of(xs);
        return p(3) ? n(1000) + s.repeat(1 + n(40)) : s;
    }
    @SafeVarargs public final <T> T of(T... xs) { return xs[n(xs.length)]; }
}
