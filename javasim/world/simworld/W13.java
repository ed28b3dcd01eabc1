package simworld;

import io.envoyproxy.pgv.*;
import java.util.*;
import pgvsim.*;

/** Validations of shared messages on several threads, against each of them alone. */
public final class W13 extends World {
    static final class Fault extends RuntimeException { Fault(String m) { super(m); } }
    final List<Object> msgs = new ArrayList<>();
    final List<String> texts = new ArrayList<>(), want = new ArrayList<>();
    ReflectiveValidatorIndex[] idx = {new ReflectiveValidatorIndex(), new ReflectiveValidatorIndex()};
    final Set<Integer> look = new HashSet<>();
    int looked;
    String order;
    final Map<Class<?>, Validator<?>> kept = new HashMap<>();
    final List<Object[]> results = new ArrayList<>();
    final Throwable[] injected = new Throwable[512];
    final StringBuilder log = new StringBuilder();

    @Override public void setup() {
        for (String[] o : plan.objs) {
            if (o[0].equals("msg")) {
                long seed = Long.parseLong(o[2]);
                Object m = Alone.make(o[1], seed, o[3]);
                msgs.add(m);
                texts.add(m.toString());
                want.add(Alone.fresh(o[1], seed, o[3]));
                int i = o[3].indexOf(",^");
                if (i < 0) continue;
                hit("map_orders");
                String there = want.get(want.size() - 1), here = Alone.fresh(o[1], seed, o[3].substring(0, i));
                if (there.equals("ok") != here.equals("ok") || there.startsWith("invalid") != here.startsWith("invalid")) order = "the map order decides: " + o[1] + " " + seed + " " + o[3] + " gives " + there + ", and in another order of its maps' entries " + here;
            } else if (o[0].equals("lookfault")) look.add(Integer.valueOf(o[1]));
        }
    }
    private ValidatorIndex faulty(ValidatorIndex x, int k) {
        return new ValidatorIndex() {
            @Override public <T> Validator<T> validatorFor(Class c) {
                Sim.y();
                if (look.contains(looked++)) { hit("fault_lookup"); Fault f = new Fault("lookup " + looked); injected[k] = f; throw f; }
                return x.validatorFor(c);
            }
        };
    }
    /** The validator class of a message, asked as the index would. */
    @SuppressWarnings({"unchecked", "rawtypes"})
    private Throwable direct(Object m, ValidatorIndex x, Boolean[] answer) {
        Class<?> e = m.getClass();
        while (e.getEnclosingClass() != null) e = e.getEnclosingClass();
        try {
            ValidatorImpl v;
            try {
                v = (ValidatorImpl) Class.forName(e.getName() + "Validator", true, W13.class.getClassLoader()).getMethod("validatorFor", Class.class).invoke(null, m.getClass());
            } catch (ClassNotFoundException n) {
                if (answer != null) answer[0] = true;
                return null;
            } catch (java.lang.reflect.InvocationTargetException n) {
                return n.getCause();
            }
            if (answer != null) {
                Validator w = p -> { if (v != null) v.assertValid(p, x); };
                answer[0] = w.isValid(m);
                return null;
            }
            return v == null ? null : Alone.call(p -> v.assertValid(p, x), m);
        } catch (ReflectiveOperationException n) {
            throw new IllegalStateException(n);
        }
    }
    @SuppressWarnings({"unchecked", "rawtypes"})
    @Override public void op(String[] o, int k) {
        int i = Integer.parseInt(o[3]);
        if (i >= msgs.size()) return;
        Object m = msgs.get(i);
        ReflectiveValidatorIndex x = idx[Integer.parseInt(o[5])];
        Sim.T me = (Sim.T) Thread.currentThread();
        me.blown = null;
        me.fuse = o.length > 6 ? Integer.parseInt(o[6].substring(4)) : -1;
        Throwable t = null;
        Boolean b = null;
        try {
            switch (o[4]) {
                case "direct": t = direct(m, faulty(x, k), null); break;
                case "whole": { Boolean[] a = {null}; t = direct(m, faulty(x, k), a); b = a[0]; break; }
                case "bool": b = x.validatorFor(m).isValid(m); break;
                case "kept": {
                    Validator v = kept.get(m.getClass());
                    if (v == null) { v = x.validatorFor(m.getClass()); kept.put(m.getClass(), v); }
                    t = Alone.call(v, m);
                    break;
                }
                default: {
                    // the way of an interceptor
                    Validator v = faulty(x, k).validatorFor(m.getClass());
                    t = Alone.call(v, m);
                }
            }
        } catch (Sim.Death d) {
            throw d;
        } catch (Throwable e) {
            t = e;
        }
        me.fuse = -1;
        String what = String.join(" ", o) + " (" + m.getClass().getName() + ")";
        Throwable bad = me.blown != null ? me.blown : injected[k];
        if (me.blown != null) hit(me.blown instanceof StackOverflowError ? "fault_stack" : "fault_memory");
        if (bad != null) {
            for (Throwable c = t; ; c = c.getCause()) {
                if (c == bad) break;
                if (c == null) {
                    // not that this could be right, unless the answer is
                    if (b != null ? b != want.get(i).equals("ok") : !Alone.words(t).equals(want.get(i))) sim.fail(what + ": " + (b != null ? b : Alone.words(t)) + ", where " + bad + " or " + want.get(i) + " was expected");
                    break;
                }
            }
            log.append(what).append(" -> ").append(t).append('\n');
            return;
        }
        String got = b != null && t == null ? b ? "ok" : "invalid" : Alone.words(t);
        log.append(what).append(" -> ").append(got).append('\n');
        hit(got.equals("ok") ? "accepted" : got.startsWith("invalid") ? "rejected" : "exceptions");
        String w = want.get(i);
        if (b != null && t == null && w.startsWith("invalid")) w = "invalid";
        if (!got.equals(w)) sim.fail(what + ": " + got + ", where alone it gives " + w);
        if (t != null) results.add(new Object[]{t, got, what});
    }
    @Override public String judge() {
        if (order != null) return order;
        for (int i = 0; i < msgs.size(); i++) if (!msgs.get(i).toString().equals(texts.get(i))) return "a message of " + msgs.get(i).getClass().getName() + " was modified: " + texts.get(i) + " became " + msgs.get(i);
        for (Object[] r : results) if (!Alone.words((Throwable) r[0]).equals(r[1])) return r[2] + ": the exception it gave has changed from " + r[1] + " to " + Alone.words((Throwable) r[0]);
        for (int i = 0; i < msgs.size(); i++) {
            Object m = msgs.get(i);
            for (ReflectiveValidatorIndex x : idx) {
                String got = Alone.words(Alone.call(x.validatorFor(m.getClass()), m));
                if (!got.equals(want.get(i))) return "afterwards, " + m.getClass().getName() + " gives " + got + ", where alone it gives " + want.get(i);
            }
            String got = Alone.words(direct(m, idx[0], null));
            if (!got.equals(want.get(i))) return "afterwards, " + m.getClass().getName() + " gives " + got + ", where alone it gives " + want.get(i);
        }
        return null;
    }
    @Override public String outcome() { return log.toString(); }
}
