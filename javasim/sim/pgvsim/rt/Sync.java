package pgvsim.rt;

import java.util.*;
import java.util.function.*;
import pgvsim.Sim;

/** Collections.synchronizedMap and friends with locks the simulator knows. */
public final class Sync {
    public static class M<K, V> implements Map<K, V> {
        private final Map<K, V> m;
        M(Map<K, V> m) { this.m = Objects.requireNonNull(m); }
        private <X> X in(Supplier<X> s) { Sim.enter(this); try { return s.get(); } finally { Sim.exit(this); } }
        @Override public int size() { return in(m::size); }
        @Override public boolean isEmpty() { return in(m::isEmpty); }
        @Override public boolean containsKey(Object k) { return in(() -> m.containsKey(k)); }
        @Override public boolean containsValue(Object v) { return in(() -> m.containsValue(v)); }
        @Override public V get(Object k) { return in(() -> m.get(k)); }
        @Override public V put(K k, V v) { return in(() -> m.put(k, v)); }
        @Override public V remove(Object k) { return in(() -> m.remove(k)); }
        @Override public void putAll(Map<? extends K, ? extends V> q) { in(() -> { m.putAll(q); return null; }); }
        @Override public void clear() { in(() -> { m.clear(); return null; }); }
        @Override public Set<K> keySet() { return m.keySet(); }
        @Override public Collection<V> values() { return m.values(); }
        @Override public Set<Entry<K, V>> entrySet() { return m.entrySet(); }
        @Override public V getOrDefault(Object k, V d) { return in(() -> m.getOrDefault(k, d)); }
        @Override public void forEach(BiConsumer<? super K, ? super V> f) { in(() -> { m.forEach(f); return null; }); }
        @Override public void replaceAll(BiFunction<? super K, ? super V, ? extends V> f) { in(() -> { m.replaceAll(f); return null; }); }
        @Override public V putIfAbsent(K k, V v) { return in(() -> m.putIfAbsent(k, v)); }
        @Override public boolean remove(Object k, Object v) { return in(() -> m.remove(k, v)); }
        @Override public V replace(K k, V v) { return in(() -> m.replace(k, v)); }
        @Override public boolean replace(K k, V a, V b) { return in(() -> m.replace(k, a, b)); }
        @Override public V computeIfAbsent(K k, Function<? super K, ? extends V> f) { return in(() -> m.computeIfAbsent(k, f)); }
        @Override public V computeIfPresent(K k, BiFunction<? super K, ? super V, ? extends V> f) { return in(() -> m.computeIfPresent(k, f)); }
        @Override public V compute(K k, BiFunction<? super K, ? super V, ? extends V> f) { return in(() -> m.compute(k, f)); }
        @Override public V merge(K k, V v, BiFunction<? super V, ? super V, ? extends V> f) { return in(() -> m.merge(k, v, f)); }
        @Override public String toString() { return in(m::toString); }
        @Override public int hashCode() { return in(m::hashCode); }
        @Override public boolean equals(Object o) { return o == this || in(() -> m.equals(o)); }
    }
    public static <K, V> Map<K, V> map(Map<K, V> m) { return new M<>(m); }
    public static <T> Collection<T> coll(Collection<T> c) { return new C<>(c); }
    public static <T> Set<T> set(Set<T> c) { return new S<>(c); }
    public static class C<T> extends AbstractCollection<T> {
        final Collection<T> c;
        C(Collection<T> c) { this.c = c; }
        <X> X in(Supplier<X> s) { Sim.enter(this); try { return s.get(); } finally { Sim.exit(this); } }
        @Override public int size() { return in(c::size); }
        @Override public boolean contains(Object o) { return in(() -> c.contains(o)); }
        @Override public boolean add(T t) { return in(() -> c.add(t)); }
        @Override public boolean remove(Object t) { return in(() -> c.remove(t)); }
        @Override public void clear() { in(() -> { c.clear(); return null; }); }
        @Override public Iterator<T> iterator() { return c.iterator(); }
    }
    public static class S<T> extends C<T> implements Set<T> {
        S(Set<T> c) { super(c); }
        @Override public int hashCode() { return c.hashCode(); }
        @Override public boolean equals(Object o) { return o == this || c.equals(o); }
    }
    public static class HT<K, V> extends Hashtable<K, V> {
        public HT() { }
        public HT(int n) { super(n); }
        private <X> X in(Supplier<X> s) { Sim.enter(this); try { return s.get(); } finally { Sim.exit(this); } }
        @Override public V get(Object k) { return in(() -> super.get(k)); }
        @Override public V put(K k, V v) { return in(() -> super.put(k, v)); }
        @Override public V remove(Object k) { return in(() -> super.remove(k)); }
        @Override public V putIfAbsent(K k, V v) { return in(() -> super.putIfAbsent(k, v)); }
        @Override public V computeIfAbsent(K k, Function<? super K, ? extends V> f) { return in(() -> { V v = super.get(k); if (v == null && (v = f.apply(k)) != null) super.put(k, v); return v; }); }
        @Override public V compute(K k, BiFunction<? super K, ? super V, ? extends V> f) { return in(() -> { V v = f.apply(k, super.get(k)); if (v == null) super.remove(k); else super.put(k, v); return v; }); }
    }
}
