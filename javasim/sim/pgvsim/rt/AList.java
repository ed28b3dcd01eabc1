package pgvsim.rt;

import java.util.*;

/** See Guard. */
public class AList<E> extends ArrayList<E> {
    private transient Guard g;
    private Guard g() { Guard q = g; return q == null ? g = new Guard() : q; }
    public AList() { super(); }
    public AList(int n) { super(n); }
    public AList(Collection<? extends E> c) { super(c); }
    @Override public boolean contains(Object k) { Guard g = g(); g.r("ArrayList"); try { return super.contains(k); } finally { g.re(); } }
    @Override public E get(int i) { Guard g = g(); g.r("ArrayList"); try { return super.get(i); } finally { g.re(); } }
    @Override public boolean add(E e) { Guard g = g(); g.w("ArrayList"); try { return super.add(e); } finally { g.we(); } }
    @Override public boolean remove(Object k) { Guard g = g(); g.w("ArrayList"); try { return super.remove(k); } finally { g.we(); } }
    @Override public void clear() { Guard g = g(); g.w("ArrayList"); try { super.clear(); } finally { g.we(); } }
    @Override public boolean addAll(Collection<? extends E> c) { Guard g = g(); g.w("ArrayList"); try { return super.addAll(c); } finally { g.we(); } }
    @Override public E set(int i, E e) { Guard g = g(); g.w("ArrayList"); try { return super.set(i, e); } finally { g.we(); } }
}
