package pgvsim.rt;

import java.util.*;
import java.util.function.*;

/** Generated by hand-run script; see Guard. */
public class TMap<K, V> extends TreeMap<K, V> {
    private transient Guard g;
    private Guard g() { Guard q = g; return q == null ? g = new Guard() : q; }
    public TMap() { super(); }
    public TMap(Map<? extends K, ? extends V> m) { super(m); }
    public TMap(Comparator<? super K> m) { super(m); }
    @Override public V get(Object k) { Guard g = g(); g.r("TreeMap"); try { return super.get(k); } finally { g.re(); } }
    @Override public boolean containsKey(Object k) { Guard g = g(); g.r("TreeMap"); try { return super.containsKey(k); } finally { g.re(); } }
    @Override public V getOrDefault(Object k, V d) { Guard g = g(); g.r("TreeMap"); try { return super.getOrDefault(k, d); } finally { g.re(); } }
    @Override public V put(K k, V v) { Guard g = g(); g.w("TreeMap"); try { return super.put(k, v); } finally { g.we(); } }
    @Override public V putIfAbsent(K k, V v) { Guard g = g(); g.w("TreeMap"); try { return super.putIfAbsent(k, v); } finally { g.we(); } }
    @Override public V remove(Object k) { Guard g = g(); g.w("TreeMap"); try { return super.remove(k); } finally { g.we(); } }
    @Override public void clear() { Guard g = g(); g.w("TreeMap"); try { super.clear(); } finally { g.we(); } }
    @Override public void putAll(Map<? extends K, ? extends V> m) { Guard g = g(); g.w("TreeMap"); try { super.putAll(m); } finally { g.we(); } }
    @Override public V computeIfAbsent(K k, Function<? super K, ? extends V> f) { Guard g = g(); g.w("TreeMap"); try { return super.computeIfAbsent(k, f); } finally { g.we(); } }
    @Override public V computeIfPresent(K k, BiFunction<? super K, ? super V, ? extends V> f) { Guard g = g(); g.w("TreeMap"); try { return super.computeIfPresent(k, f); } finally { g.we(); } }
    @Override public V compute(K k, BiFunction<? super K, ? super V, ? extends V> f) { Guard g = g(); g.w("TreeMap"); try { return super.compute(k, f); } finally { g.we(); } }
    @Override public V merge(K k, V v, BiFunction<? super V, ? super V, ? extends V> f) { Guard g = g(); g.w("TreeMap"); try { return super.merge(k, v, f); } finally { g.we(); } }
}
