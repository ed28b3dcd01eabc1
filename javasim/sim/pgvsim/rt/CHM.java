package pgvsim.rt;

import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.function.*;
import pgvsim.Sim;

/**
 * ConcurrentHashMap as its documentation promises it: single operations are
 * atomic, a computing function runs while its bin is locked, and updating the
 * map from within such a function in the same bin fails.
 */
public class CHM<K, V> extends ConcurrentHashMap<K, V> {
    static final class Bin {
        final LinkedHashMap<Key, Object[]> m = new LinkedHashMap<>();
        boolean computing;
    }
    static final class Key {
        final Object k; final int h;
        Key(Object k, int h) { this.k = k; this.h = h; }
        @Override public int hashCode() { return h; }
        @Override public boolean equals(Object o) { return o instanceof Key && k.equals(((Key) o).k); }
    }
    private final Bin[] bins;
    private final Sim sim = Sim.current();

    public CHM() {
        bins = new Bin[sim == null ? 16 : sim.bins];
        for (int i = 0; i < bins.length; i++) bins[i] = new Bin();
    }
    public CHM(int n) { this(); }
    public CHM(int n, float f) { this(); }
    public CHM(int n, float f, int c) { this(); }
    public CHM(Map<? extends K, ? extends V> m) { this(); putAll(m); }

    private Key key(Object k) { return new Key(k, sim == null ? k.hashCode() : sim.hash(k)); }
    private Bin bin(Key k) { return bins[Math.floorMod(k.h ^ k.h >>> 16, bins.length)]; }
    @SuppressWarnings("unchecked") private static <V> V val(Object[] e) { return e == null ? null : (V) e[0]; }

    @Override public V get(Object k) {
        Objects.requireNonNull(k);
        Sim.y();
        Key q = key(k);
        return val(bin(q).m.get(q));
    }
    @Override public V getOrDefault(Object k, V d) { V v = get(k); return v == null ? d : v; }
    @Override public boolean containsKey(Object k) { return get(k) != null; }

    private interface Fn<V> { V apply(V old); }
    /** The one update operation: f sees the old value and gives the new one (null removes). */
    private V update(K k, boolean computing, Fn<V> f, boolean returnOld) {
        Objects.requireNonNull(k);
        Key q = key(k);
        Bin b = bin(q);
        if (b.computing && Sim.held(b)) throw new IllegalStateException("Recursive update");
        Sim.enter(b);
        boolean was = b.computing;
        try {
            b.computing = computing;
            V old = val(b.m.get(q));
            V v = f.apply(old);
            if (v == null) b.m.remove(q); else b.m.put(q, new Object[]{v});
            return returnOld ? old : v;
        } finally {
            b.computing = was;
            Sim.exit(b);
        }
    }
    @Override public V put(K k, V v) { Objects.requireNonNull(v); return update(k, false, o -> v, true); }
    @Override public V putIfAbsent(K k, V v) { Objects.requireNonNull(v); return update(k, false, o -> o != null ? o : v, true); }
    @SuppressWarnings("unchecked") @Override public V remove(Object k) { return update((K) k, false, o -> null, true); }
    @SuppressWarnings("unchecked") @Override public boolean remove(Object k, Object v) {
        boolean[] r = new boolean[1];
        update((K) k, false, o -> (r[0] = o != null && o.equals(v)) ? null : o, true);
        return r[0];
    }
    @Override public V replace(K k, V v) { Objects.requireNonNull(v); return update(k, false, o -> o == null ? null : v, true); }
    @Override public boolean replace(K k, V a, V v) {
        boolean[] r = new boolean[1];
        update(k, false, o -> (r[0] = o != null && o.equals(a)) ? v : o, true);
        return r[0];
    }
    @Override public V computeIfAbsent(K k, Function<? super K, ? extends V> f) {
        Objects.requireNonNull(f);
        Key q = key(Objects.requireNonNull(k));
        // the first node of a bin is found without its lock
        Iterator<Key> it = bin(q).m.keySet().iterator();
        if (it.hasNext() && it.next().equals(q)) return get(k);
        return update(k, true, o -> o != null ? o : f.apply(k), false);
    }
    @Override public V computeIfPresent(K k, BiFunction<? super K, ? super V, ? extends V> f) { return update(k, true, o -> o == null ? null : f.apply(k, o), false); }
    @Override public V compute(K k, BiFunction<? super K, ? super V, ? extends V> f) { return update(k, true, o -> f.apply(k, o), false); }
    @Override public V merge(K k, V v, BiFunction<? super V, ? super V, ? extends V> f) { return update(k, true, o -> o == null ? v : f.apply(o, v), false); }
    @Override public void putAll(Map<? extends K, ? extends V> m) { for (Map.Entry<? extends K, ? extends V> e : m.entrySet()) put(e.getKey(), e.getValue()); }
    @Override public void clear() { for (Bin b : bins) { Sim.enter(b); b.m.clear(); Sim.exit(b); } }
    @Override public long mappingCount() { long n = 0; for (Bin b : bins) { Sim.y(); n += b.m.size(); } return n; }
    @Override public int size() { return (int) mappingCount(); }
    @Override public boolean isEmpty() { return mappingCount() == 0; }
    private List<Map.Entry<K, V>> snapshot() {
        List<Map.Entry<K, V>> l = new ArrayList<>();
        for (Bin b : bins) {
            Sim.y();
            for (Map.Entry<Key, Object[]> e : b.m.entrySet()) {
                @SuppressWarnings("unchecked") K k = (K) e.getKey().k;
                l.add(new AbstractMap.SimpleEntry<K, V>(k, val(e.getValue())) {
                    @Override public V setValue(V v) { put(k, v); return super.setValue(v); }
                });
            }
        }
        return l;
    }
    private <X> Set<X> view(Function<Map.Entry<K, V>, X> f) {
        return new AbstractSet<X>() {
            @Override public Iterator<X> iterator() {
                Iterator<Map.Entry<K, V>> it = snapshot().iterator();
                return new Iterator<X>() {
                    Map.Entry<K, V> at;
                    @Override public boolean hasNext() { return it.hasNext(); }
                    @Override public X next() { at = it.next(); return f.apply(at); }
                    @Override public void remove() { CHM.this.remove(at.getKey()); }
                };
            }
            @Override public int size() { return CHM.this.size(); }
        };
    }
    @Override public Set<Map.Entry<K, V>> entrySet() { return view(e -> e); }
    @Override public KeySetView<K, V> keySet() { return new ConcurrentHashMap<K, V>(plain()).keySet(); }
    private Map<K, V> plain() { Map<K, V> m = new LinkedHashMap<>(); for (Map.Entry<K, V> e : snapshot()) m.put(e.getKey(), e.getValue()); return m; }
    @Override public Collection<V> values() { return plain().values(); }
    @Override public Enumeration<K> keys() { return Collections.enumeration(plain().keySet()); }
    @Override public Enumeration<V> elements() { return Collections.enumeration(plain().values()); }
    @Override public boolean containsValue(Object v) { return plain().containsValue(v); }
    @Override public boolean contains(Object v) { return containsValue(v); }
    @Override public void forEach(BiConsumer<? super K, ? super V> f) { for (Map.Entry<K, V> e : snapshot()) f.accept(e.getKey(), e.getValue()); }
    @Override public void forEach(long n, BiConsumer<? super K, ? super V> f) { forEach(f); }
    @Override public void replaceAll(BiFunction<? super K, ? super V, ? extends V> f) { for (Map.Entry<K, V> e : snapshot()) compute(e.getKey(), (k, v) -> v == null ? null : f.apply(k, v)); }
    @Override public String toString() { return plain().toString(); }
    @Override public int hashCode() { return System.identityHashCode(this); }
    @Override public boolean equals(Object o) { return o == this || o instanceof Map && plain().equals(o); }
    /** ConcurrentHashMap.newKeySet() */
    public static <T> Set<T> newSet() { return Collections.newSetFromMap(new CHM<T, Boolean>()); }
    public static <T> Set<T> newSet(int n) { return newSet(); }
}
