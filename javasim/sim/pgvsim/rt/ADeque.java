package pgvsim.rt;

import java.util.*;

/** See Guard. */
public class ADeque<E> extends ArrayDeque<E> {
    private transient Guard g;
    private Guard g() { Guard q = g; return q == null ? g = new Guard() : q; }
    public ADeque() { super(); }
    public ADeque(int n) { super(n); }
    public ADeque(Collection<? extends E> c) { super(c); }
    @Override public boolean contains(Object k) { Guard g = g(); g.r("ArrayDeque"); try { return super.contains(k); } finally { g.re(); } }
    @Override public boolean add(E e) { Guard g = g(); g.w("ArrayDeque"); try { return super.add(e); } finally { g.we(); } }
    @Override public boolean remove(Object k) { Guard g = g(); g.w("ArrayDeque"); try { return super.remove(k); } finally { g.we(); } }
    @Override public void clear() { Guard g = g(); g.w("ArrayDeque"); try { super.clear(); } finally { g.we(); } }
    @Override public boolean addAll(Collection<? extends E> c) { Guard g = g(); g.w("ArrayDeque"); try { return super.addAll(c); } finally { g.we(); } }
}
