package pgvsim.rt;

import java.util.*;

/** See Guard. */
public class LSet<E> extends LinkedHashSet<E> {
    private transient Guard g;
    private Guard g() { Guard q = g; return q == null ? g = new Guard() : q; }
    public LSet() { super(); }
    public LSet(int n) { super(n); }
    public LSet(int n, float f) { super(n, f); }
    public LSet(Collection<? extends E> c) { super(c); }
    @Override public boolean contains(Object k) { Guard g = g(); g.r("LinkedHashSet"); try { return super.contains(k); } finally { g.re(); } }
    @Override public boolean add(E e) { Guard g = g(); g.w("LinkedHashSet"); try { return super.add(e); } finally { g.we(); } }
    @Override public boolean remove(Object k) { Guard g = g(); g.w("LinkedHashSet"); try { return super.remove(k); } finally { g.we(); } }
    @Override public void clear() { Guard g = g(); g.w("LinkedHashSet"); try { super.clear(); } finally { g.we(); } }
    @Override public boolean addAll(Collection<? extends E> c) { Guard g = g(); g.w("LinkedHashSet"); try { return super.addAll(c); } finally { g.we(); } }
}
