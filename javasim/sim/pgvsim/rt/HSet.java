package pgvsim.rt;

import java.util.*;

/** See Guard. */
public class HSet<E> extends HashSet<E> {
    private transient Guard g;
    private Guard g() { Guard q = g; return q == null ? g = new Guard() : q; }
    public HSet() { super(); }
    public HSet(int n) { super(n); }
    public HSet(int n, float f) { super(n, f); }
    public HSet(Collection<? extends E> c) { super(c); }
    @Override public boolean contains(Object k) { Guard g = g(); g.r("HashSet"); try { return super.contains(k); } finally { g.re(); } }
    @Override public boolean add(E e) { Guard g = g(); g.w("HashSet"); try { return super.add(e); } finally { g.we(); } }
    @Override public boolean remove(Object k) { Guard g = g(); g.w("HashSet"); try { return super.remove(k); } finally { g.we(); } }
    @Override public void clear() { Guard g = g(); g.w("HashSet"); try { super.clear(); } finally { g.we(); } }
    @Override public boolean addAll(Collection<? extends E> c) { Guard g = g(); g.w("HashSet"); try { return super.addAll(c); } finally { g.we(); } }
}
