package simworld;

import com.google.rpc.BadRequest;
import io.envoyproxy.pgv.*;
import io.grpc.*;
import io.grpc.protobuf.StatusProto;
import java.util.*;
import pgvsim.*;

/** What the worlds of the two interceptors share: messages, the index, the check of a status. */
abstract class Grpc extends World {
    static class M {
        final int v, id;
        M(int v, int id) { this.v = v; this.id = id; }
        @Override public String toString() { return getClass().getSimpleName() + "#" + id + "(" + v + ")"; }
    }
    // each class has a rule of its own
    static final class Low extends M { Low(int v, int id) { super(v, id); } }
    static final class High extends M { High(int v, int id) { super(v, id); } }
    static final class Even extends M { Even(int v, int id) { super(v, id); } }
    static final class Any extends M { Any(int v, int id) { super(v, id); } }

    static final class Fault extends RuntimeException { Fault(String m) { super(m); } }
    static final class Broken extends Error { Broken(String m) { super(m); } }

    /** What a message has coming: nothing, a violation, or an exception. */
    static String rule(M m) {
        if (m instanceof Low) return m.v < 50 ? null : "must be low";
        if (m instanceof High) return m.v >= 50 ? null : "must be high";
        if (m instanceof Even) return m.v % 2 == 0 ? null : "must be even";
        return null;
    }
    final Map<Object, ValidationException> real = new IdentityHashMap<>();   // violations of generated messages
    final Set<Object> generated = Collections.newSetFromMap(new IdentityHashMap<>());
    final Set<Integer> lookupFaults = new HashSet<>(), validatorFaults = new HashSet<>();
    int lookups, validations;
    boolean[] done;
    Throwable[] injected;   // per operation

    ValidatorIndex index(boolean r) {
        ValidatorIndex gen = new ReflectiveValidatorIndex();
        return new ValidatorIndex() {
            @Override public <T> Validator<T> validatorFor(Class c) {
                Sim.y();
                if (lookupFaults.contains(lookups++)) throw inject("lookup", new Fault("lookup " + lookups));
                if (!M.class.isAssignableFrom(c)) return gen.validatorFor(c);
                return p -> {
                    Sim.y();
                    M m = (M) p;
                    if (!c.isInstance(m)) { sim.fail("a " + c.getSimpleName() + " validator was given a " + m); return; }
                    String bad = rule(m);
                    Sim.y();
                    if (validatorFaults.contains(validations++)) {
                        if (validations % 2 == 0) throw injectE("validator_error", new Broken("validator " + validations));
                        throw inject("validator", new Fault("validator " + validations));
                    }
                    if (bad != null) throw new ValidationException("field" + m.id, "value" + m.v, bad + " " + m.id);
                };
            }
        };
    }
    Fault inject(String what, Fault f) { injectE(what, f); return f; }
    <E extends Throwable> E injectE(String what, E e) {
        hit("fault_" + what);
        Object c = ((Sim.T) Thread.currentThread()).current;
        injected[(Integer) c] = e;
        return e;
    }
    /** The text of a violation: field, reason and exception message; null when the message is fine. */
    String[] verdict(Object m) {
        if (m instanceof M) {
            String r = rule((M) m);
            if (r == null) return null;
            M x = (M) m;
            return new String[]{"field" + x.id, r + " " + x.id, "field" + x.id + ": " + r + " " + x.id + " - Got value" + x.v};
        }
        ValidationException e = real.get(m);
        return e == null ? null : new String[]{e.getField(), e.getReason(), e.getMessage()};
    }
    Object message(String kind, String v, int id) throws Exception {
        int n = Integer.parseInt(v);
        switch (kind) {
            case "low": return new Low(n, id);
            case "high": return new High(n, id);
            case "even": return new Even(n, id);
            case "any": return new Any(n, id);
            default: {
                Class<?> c = Class.forName(kind);
                Object m = c.getMethod("make", Rng.class, int.class).invoke(null, new Rng(n), 0);
                generated.add(m);
                try {
                    new ReflectiveValidatorIndex().validatorFor(m).assertValid(m);
                } catch (ValidationException e) {
                    real.put(m, e);
                }
                return m;
            }
        }
    }
    /** What is wrong with a status that should tell this violation. */
    static String status(Status s, Metadata t, String[] v) {
        if (s == null) return "no status";
        if (s.getCode() != Status.Code.INVALID_ARGUMENT) return "status " + s.getCode() + " instead of INVALID_ARGUMENT";
        if (!v[2].equals(s.getDescription())) return "description \"" + s.getDescription() + "\" instead of \"" + v[2] + "\"";
        if (t == null) return "no trailers";
        com.google.rpc.Status d = t.get(StatusProto.KEY);
        if (d == null) return "no details";
        if (t.size() != 1) return "foreign trailers " + t;
        if (d.getCode() != com.google.rpc.Code.INVALID_ARGUMENT.getNumber()) return "details with code " + d.getCode();
        if (d.getDetailsList().size() != 1) return d.getDetailsList().size() + " details";
        BadRequest b = d.getDetailsList().get(0).unpack(BadRequest.class);
        if (b.getFieldViolationsCount() != 1) return b.getFieldViolationsCount() + " field violations";
        if (!b.getFieldViolations(0).getField().equals(v[0])) return "violation of field " + b.getFieldViolations(0).getField() + " instead of " + v[0];
        if (!b.getFieldViolations(0).getDescription().equals(v[1])) return "violation \"" + b.getFieldViolations(0).getDescription() + "\" instead of \"" + v[1] + "\"";
        return null;
    }
    /** Every operation before this one has been done; it can be waited for without a deadlock of the world's own. */
    void others(int k) { Sim.until(() -> { for (int i = 0; i < k; i++) if (!done[i]) return false; return true; }); }
    void ready(List<Integer> before) { Sim.until(() -> { for (int i : before) if (!done[i]) return false; return true; }); }
    /** Earlier operations of the same call. */
    List<Integer> before(int k, int col) {
        List<Integer> l = new ArrayList<>();
        for (int i = 0; i < k; i++) if (plan.ops.get(i)[col].equals(plan.ops.get(k)[col])) l.add(i);
        return l;
    }
    void shared() {
        done = new boolean[plan.ops.size()];
        injected = new Throwable[plan.ops.size()];
        for (String[] o : plan.objs) {
            if (o[0].equals("lookfault")) lookupFaults.add(Integer.parseInt(o[1]));
            if (o[0].equals("valfault")) validatorFaults.add(Integer.parseInt(o[1]));
        }
    }
    final StringBuilder log = new StringBuilder();
    @Override public String outcome() { return log.toString(); }
    static String brief(Throwable t) { return t == null ? "nothing" : t instanceof StatusRuntimeException ? "StatusRuntimeException " + ((StatusRuntimeException) t).getStatus() : t.toString() + (t.getStackTrace().length > 0 ? " at " + t.getStackTrace()[0] : ""); }
}
