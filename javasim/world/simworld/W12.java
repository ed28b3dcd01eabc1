package simworld;

import io.envoyproxy.pgv.*;
import java.lang.reflect.Field;
import java.util.*;
import pgvsim.*;

/** Validator indexes: lookups, uses, registrations, fallbacks, class loading. */
public final class W12 extends World {
    static final Map<String, Integer> CONST = new HashMap<>();
    static {
        String[] s = {"fix.one.Fixone$A", "11", "fix.one.Fixone$B", "12", "fix.one.Fixone$B$C", "13", "fix.one.Fixone$B$C$D", "14", "fix.two.A", "21", "fix.two.B", "22", "fix.two.B$C", "23"};
        for (int i = 0; i < s.length; i += 2) CONST.put(s[i], Integer.valueOf(s[i + 1]));
    }
    static final String[] KIDS = {"b_", "c_", "d_", "a_", "p_", "other_"};   // in the order of the fields
    static final Set<String> DISABLED = new HashSet<>(Arrays.asList("fix.one.Fixone$Dis", "fix.two.Dis"));

    static final class InjRt extends RuntimeException { InjRt(String m) { super(m); } }
    static final class InjErr extends LinkageError { InjErr(String m) { super(m); } }
    static final class FbRt extends RuntimeException { FbRt(String m) { super(m); } }

    static final class Fault { String label, name, kind; int nth, count, seen; }
    static final class Hit { Fault f; int step; }
    static final class Add { int idx; Class<?> cls; int n, from = -1, to = Integer.MAX_VALUE; boolean deep; }
    final class Idx {
        int id;
        boolean explicit;
        String fb;
        int thrown;
        ValidatorIndex x;
    }
    final List<Idx> idx = new ArrayList<>();
    final List<Fault> faults = new ArrayList<>();
    final List<Hit> hits = new ArrayList<>();
    final List<Add> adds = new ArrayList<>();
    final Map<String, Loader> ld = new HashMap<>();
    final Validator[] slot = new Validator[8];
    final Class<?>[] slotClass = new Class<?>[8];
    final int[] slotIdx = new int[8];
    final StringBuilder log = new StringBuilder();
    boolean faultsOn = true;

    @Override public void setup() throws Exception {
        ld.put("a", new Loader(W12.class.getClassLoader(), Main.fix(false), "a"));
        ld.put("b", new Loader(W12.class.getClassLoader(), Main.fix(true), "b"));
        for (Loader l : ld.values()) l.seam = this::load;
        for (String[] o : plan.objs) {
            if (o[0].equals("fault")) {
                Fault f = new Fault();
                f.label = o[1]; f.name = o[2]; f.kind = o[3]; f.nth = Integer.parseInt(o[4]); f.count = Integer.parseInt(o[5]);
                faults.add(f);
            } else if (o[0].equals("idx")) {
                Idx i = new Idx();
                i.id = idx.size();
                i.explicit = o[1].equals("explicit");
                i.fb = o[2];
                ValidatorIndex fb = fallback(i);
                i.x = fb == null ? i.explicit ? new ExplicitValidatorIndex() : new ReflectiveValidatorIndex() : i.explicit ? new ExplicitValidatorIndex(fb) : new ReflectiveValidatorIndex(fb);
                idx.add(i);
            }
        }
        if (idx.isEmpty()) { Idx i = new Idx(); i.fb = "none"; i.x = new ReflectiveValidatorIndex(); idx.add(i); }
    }
    private void load(Loader l, String name) throws ClassNotFoundException {
        // only the validator classes the index asks for; nothing may happen while the JVM itself resolves or initialises a class
        if (!faultsOn || !name.endsWith("Validator") || name.indexOf('$') >= 0) return;
        Sim.y();
        for (Fault f : faults) {
            if (!f.label.equals(l.label) || !f.name.equals(name)) continue;
            int k = f.seen++;
            if (k < f.nth || k >= f.nth + f.count) continue;
            Hit h = new Hit();
            h.f = f; h.step = sim.step;
            hits.add(h);
            hit("fault_" + f.kind);
            if (f.kind.equals("missing")) throw new ClassNotFoundException("injected " + name);
            if (f.kind.equals("error")) throw new InjErr("injected " + name);
            throw new InjRt("injected " + name);
        }
    }
    private ValidatorIndex fallback(Idx me) {
        String k = me.fb;
        if (k.equals("none")) return null;
        if (k.equals("valid")) return ValidatorIndex.ALWAYS_VALID;
        if (k.equals("invalid")) return ValidatorIndex.ALWAYS_INVALID;
        if (k.startsWith("idx")) { int n = Integer.parseInt(k.substring(3)); return n < idx.size() ? idx.get(n).x : null; }
        if (k.startsWith("throw")) {
            int n = Integer.parseInt(k.substring(5));
            return new ValidatorIndex() {
                @Override public <T> Validator<T> validatorFor(Class c) {
                    Sim.y();
                    if (n == 0 || me.thrown++ < n) { hit("fault_fallback"); throw new FbRt("fallback of index " + me.id); }
                    return Validator.ALWAYS_VALID;
                }
            };
        }
        // looks a well-known class up in the same index first
        String warm = k.substring(4);
        return new ValidatorIndex() {
            @Override public <T> Validator<T> validatorFor(Class c) {
                try {
                    if (!c.getName().equals(warm)) { hit("nested_lookup"); me.x.validatorFor(cls("a:" + warm)); }
                } catch (ReflectiveOperationException e) {
                    throw new IllegalStateException(e);
                }
                return Validator.ALWAYS_VALID;
            }
        };
    }
    Class<?> cls(String ref) throws ReflectiveOperationException {
        if (ref.startsWith("!")) return ref.equals("!bytes") ? byte[].class : Class.forName(ref.substring(1));
        return ld.get(ref.substring(0, 1)).loadClass(ref.substring(2), false_());
    }
    private static boolean false_() { return false; }
    static Class<?> own(Loader l, String n) throws ReflectiveOperationException { return l.loadClass(n, false); }
    static String label(Class<?> c) { return c.getClassLoader() instanceof Loader ? ((Loader) c.getClassLoader()).label : ""; }
    static int right(Class<?> c) {
        Integer n = CONST.get(c.getName());
        return n == null ? 0 : label(c).equals("b") ? n + 100 : n;
    }
    private Object build(Class<?> c, Rng r, int depth) throws ReflectiveOperationException {
        if (c == byte[].class) return new byte[]{1};
        if (c == String.class) return "text";
        if (c == Integer.class) return 5;
        Object m = c.getDeclaredConstructor().newInstance();
        int v = right(c);
        if (r.p(25)) v = r.n(3);
        for (Add a : adds) if (a.cls == c && r.p(30)) v = a.n;
        c.getField("v_").setInt(m, v);
        for (String k : KIDS) {
            try {
                Field f = c.getField(k);
                if (depth < 4 && r.p(depth == 0 ? 45 : 30)) f.set(m, build(f.getType(), r, depth + 1));
            } catch (NoSuchFieldException e) {
                continue;
            }
        }
        return m;
    }

    // ---- the model: every answer that may be given
    private void kids(Idx i, Object m, int from, int to, Set<String> out) throws ReflectiveOperationException {
        // out: what the rest may give; "ok" when every child is fine
        Set<String> now = new TreeSet<>();
        boolean ok = true;
        for (String k : KIDS) {
            Object kid;
            try {
                kid = m.getClass().getField(k).get(m);
            } catch (NoSuchFieldException e) {
                continue;
            }
            if (kid == null) continue;
            Set<String> e = expect(i, kid, from, to);
            for (String s : e) if (!s.equals("ok")) now.add(s);
            if (!e.contains("ok")) { ok = false; break; }
        }
        if (ok) now.add("ok");
        out.addAll(now);
    }
    private void fall(Idx i, Object m, int from, int to, Set<String> out) throws ReflectiveOperationException {
        String k = i.fb;
        if (k.equals("none") || k.equals("valid")) out.add("ok");
        else if (k.equals("invalid")) out.add("UNKNOWN");
        else if (k.startsWith("idx")) {
            int n = Integer.parseInt(k.substring(3));
            if (n < i.id) out.addAll(expect(idx.get(n), m, from, to)); else out.add("ok");
        } else if (k.equals("throw0")) out.add("fallback");
        else if (k.startsWith("throw")) { out.add("fallback"); out.add("ok"); }
        else {
            out.add("ok");
            // the class looked up on the way may fail to load
            faulty(i, cls("a:" + k.substring(4)), from, to, out);
        }
    }
    static String validatorName(Class<?> c) {
        Class<?> e = c;
        while (e.getEnclosingClass() != null) e = e.getEnclosingClass();
        return e.getName() + "Validator";
    }
    private boolean faulty(Idx i, Class<?> c, int from, int to, Set<String> out) {
        boolean gone = false;
        for (Hit h : hits) {
            if (!h.f.label.equals(label(c)) || !h.f.name.equals(validatorName(c))) continue;
            if (h.f.kind.equals("missing")) gone = true;
            else if (h.step >= from && h.step <= to) out.add(h.f.kind);
        }
        return gone;
    }
    private Set<String> expect(Idx i, Object m, int from, int to) throws ReflectiveOperationException {
        Set<String> out = new TreeSet<>();
        Class<?> c = m.getClass();
        if (i.explicit) {
            // registrations a use in [from, to] may see
            boolean surely = false;
            for (Add a : adds) {
                if (a.idx != i.id || a.cls != c || a.from < 0 || a.from > to) continue;
                if (a.to < from) surely = true;
                boolean gone = false;
                for (Add b : adds) if (b != a && b.idx == a.idx && b.cls == a.cls && b.from > a.to && b.to < from) gone = true;
                if (gone) continue;
                int v = c.getField("v_").getInt(m);
                if (v != a.n) out.add("must equal " + a.n);
                else if (a.deep) kids(i, m, from, to, out);
                else out.add("ok");
            }
            if (!surely) fall(i, m, from, to, out);
            return out;
        }
        if (faulty(i, c, from, to, out)) fall(i, m, from, to, out);
        if (DISABLED.contains(c.getName())) { out.add("ok"); return out; }
        if (c.getName().startsWith("fix.trap.Init")) { out.add("linkage"); fall(i, m, from, to, out); return out; }
        Integer n = CONST.get(c.getName());
        if (n == null) { fall(i, m, from, to, out); return out; }
        int v = c.getField("v_").getInt(m);
        if (v != right(c)) out.add("must equal " + right(c));
        else kids(i, m, from, to, out);
        return out;
    }
    private static boolean verdict(String s) { return s.equals("ok") || s.equals("UNKNOWN") || s.startsWith("must equal"); }

    // ---- operations
    private interface Act { void run() throws ValidationException; }
    private String result(Act a) {
        try {
            a.run();
            return "ok";
        } catch (ValidationException e) {
            return e.getField().equals("UNKNOWN") ? "UNKNOWN" : e.getReason();
        } catch (InjRt e) {
            return "runtime";
        } catch (InjErr e) {
            return "error";
        } catch (FbRt e) {
            return "fallback";
        } catch (LinkageError e) {
            return e instanceof ExceptionInInitializerError || e instanceof NoClassDefFoundError ? "linkage" : e.toString();
        } catch (Sim.Death e) {
            throw e;
        } catch (Throwable e) {
            StackTraceElement[] t = e.getStackTrace();
            return e.getClass().getName() + ": " + e.getMessage() + (t.length > 0 ? " at " + t[0] : "");
        }
    }
    private void check(String what, Set<String> want, String got) {
        log.append(what).append(" -> ").append(got).append('\n');
        hit(got.equals("ok") ? "accepted" : verdict(got) ? "rejected" : "exceptions");
        if (!want.contains(got)) sim.fail(what + ": " + got + ", where " + want + " was expected");
    }
    @SuppressWarnings({"unchecked", "rawtypes"})
    @Override public void op(String[] o, int k) throws Exception {
        Rng r = new Rng(k * 31 + plan.seed);
        Thread.currentThread().setContextClassLoader(r.of(ld.get("a"), ld.get("b"), W12.class.getClassLoader(), null));
        int from = sim.step;
        switch (o[2]) {
            case "use": {
                Idx i = idx.get(Integer.parseInt(o[3]) % idx.size());
                Class<?> c = cls(o[4]);
                Object m = build(c, new Rng(Long.parseLong(o[5])), 0);
                boolean byObject = o[6].equals("object"), bool = o[6].equals("bool");
                Object[] ans = new Object[1];
                String got = result(() -> {
                    Validator v = byObject ? i.x.validatorFor(m) : i.x.validatorFor((Class) c);
                    if (v == null) throw new IllegalStateException("the lookup gave null");
                    if (bool) ans[0] = v.isValid(m); else v.assertValid(m);
                });
                Set<String> want = expect(i, m, from, sim.step);
                if (bool) {
                    if (got.equals("ok")) got = ans[0].equals(true) ? "ok" : "invalid";
                    Set<String> w = new TreeSet<>();
                    for (String s : want) w.add(verdict(s) && !s.equals("ok") ? "invalid" : s);
                    want = w;
                }
                check(String.join(" ", o) + " v=" + (m instanceof byte[] ? Arrays.toString((byte[]) m) : m), want, got);
                break;
            }
            case "look": {
                Idx i = idx.get(Integer.parseInt(o[3]) % idx.size());
                Class<?> c = cls(o[4]);
                int s = Integer.parseInt(o[5]) % slot.length;
                Validator[] v = new Validator[1];
                String got = result(() -> { v[0] = i.x.validatorFor((Class) c); if (v[0] == null) throw new IllegalStateException("the lookup gave null"); });
                Set<String> want = new TreeSet<>();
                for (String e : expect(i, build(c, new Rng(1), 9), from, sim.step)) if (!verdict(e)) want.add(e);
                if (i.fb.startsWith("throw")) want.add("fallback");
                want.add("ok");
                check(String.join(" ", o), want, got);
                if (v[0] != null) { slot[s] = v[0]; slotClass[s] = c; slotIdx[s] = i.id; }
                break;
            }
            case "useslot": {
                int s = Integer.parseInt(o[3]) % slot.length;
                Validator v = slot[s];
                if (v == null) break;
                Class<?> c = slotClass[s];
                Idx i = idx.get(slotIdx[s]);
                Object m = build(c, new Rng(Long.parseLong(o[4])), 0);
                String got = result(() -> v.assertValid(m));
                check(String.join(" ", o) + " v=" + (m instanceof byte[] ? Arrays.toString((byte[]) m) : m), expect(i, m, from, sim.step), got);
                break;
            }
            case "add": {
                Idx i = idx.get(Integer.parseInt(o[3]) % idx.size());
                if (!i.explicit) break;
                Add a = new Add();
                a.idx = i.id; a.cls = cls(o[4]); a.n = Integer.parseInt(o[5]); a.deep = o[6].equals("deep");
                if (label(a.cls).isEmpty()) break;
                adds.add(a);
                Field f = a.cls.getField("v_");
                ValidatorImpl impl = (p, x) -> {
                    Sim.y();
                    try {
                        int v = f.getInt(p);
                        if (v != a.n) throw new ValidationException(a.cls.getName(), v, "must equal " + a.n);
                        if (a.deep) for (String kf : KIDS) {
                            Field g;
                            try { g = p.getClass().getField(kf); } catch (NoSuchFieldException e) { continue; }
                            Object kid = g.get(p);
                            if (kid != null) x.validatorFor(kid).assertValid(kid);
                        }
                    } catch (IllegalAccessException e) {
                        throw new IllegalStateException(e);
                    }
                };
                a.from = sim.step;
                String got = result(() -> ((ExplicitValidatorIndex) i.x).add((Class) a.cls, impl));
                a.to = sim.step;
                check(String.join(" ", o), Collections.singleton("ok"), got);
                break;
            }
            default: throw new IllegalArgumentException(o[2]);
        }
    }
    @SuppressWarnings({"unchecked", "rawtypes"})
    @Override public String judge() throws Exception {
        // everything once more, with nobody else about
        faultsOn = false;
        Set<String> refs = new TreeSet<>();
        for (String[] o : plan.ops) for (String w : o) if (w.startsWith("a:") || w.startsWith("b:")) { refs.add(w); refs.add((w.startsWith("a:") ? "b:" : "a:") + w.substring(2)); }
        Rng r = new Rng(plan.seed);
        for (int k = 0; k < 4; k++) refs.add(r.of("a:", "b:") + r.of(G12.CLASSES));
        for (Idx i : idx) {
                for (String ref : refs) {
                    Class<?> c = cls(ref);
                    for (int k = 0; k < 3; k++) {
                        Object m = build(c, new Rng(k * 77 + 5), 0);
                        String got = result(() -> { Validator v = i.x.validatorFor(m); if (v == null) throw new IllegalStateException("the lookup gave null"); v.assertValid(m); });
                        Set<String> want = expect(i, m, Integer.MAX_VALUE, Integer.MAX_VALUE);
                        if (!want.contains(got)) return "afterwards, index " + i.id + ", " + ref + " " + (m instanceof byte[] ? Arrays.toString((byte[]) m) : m) + ": " + got + ", where " + want + " was expected";
                    }
                }
        }
        return null;
    }
    @Override public String outcome() { return log.toString(); }
}
