package simworld;

import io.envoyproxy.pgv.*;
import java.lang.reflect.*;
import java.util.*;
import pgvsim.*;

/** One validation, as an answer in words. */
public final class Alone {
    private Alone() { }
    static String words(Throwable t) {
        if (t == null) return "ok";
        if (t instanceof ValidationException) {
            ValidationException e = (ValidationException) t;
            return "invalid " + e.getField() + "|" + e.getReason() + "|" + e.getValue() + "|" + e.getMessage();
        }
        return t.toString();
    }
    @SuppressWarnings({"unchecked", "rawtypes"})
    static Throwable call(Validator v, Object m) {
        try {
            v.assertValid(m);
            return null;
        } catch (Sim.Death d) {
            throw d;
        } catch (Throwable t) {
            return t;
        }
    }
    private static Object raw(String cls, long seed) throws ReflectiveOperationException { return raw(cls, seed, 0); }
    private static Object raw(String cls, long seed, long order) throws ReflectiveOperationException {
        Rng r = new Rng(seed);
        r.order = order;
        return Class.forName(cls, true, Alone.class.getClassLoader()).getMethod("make", Rng.class, int.class).invoke(null, r, 0);
    }
    /** The message of a seed, with the fields the recipe names taken from other seeds. */
    static Object make(String cls, long seed, String recipe) {
        try {
            int i = recipe.indexOf('^');
            long order = i < 0 ? 0 : Long.parseLong(recipe.substring(i + 1));
            Object m = raw(cls, seed, order);
            for (String s : recipe.split(",")) {
                if (s.isEmpty() || s.equals("-") || s.startsWith("^")) continue;
                String[] w = s.split("=");
                if (s.startsWith("*")) { crowd(m, cls, w[0].substring(1), Integer.parseInt(w[1].split(":")[0]), Long.parseLong(w[1].split(":")[1]), order); continue; }
                Field f = m.getClass().getField(w[0]);
                f.set(m, f.get(raw(cls, Long.parseLong(w[1]), order)));
            }
            return m;
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }
    /** Many entries like one of a map's, and one of another message's. */
    @SuppressWarnings("unchecked") private static void crowd(Object m, String cls, String name, int n, long seed, long order) throws ReflectiveOperationException {
        Field f = m.getClass().getField(name);
        Map<Object, Object> x = (Map<Object, Object>) f.get(m), o = (Map<Object, Object>) f.get(raw(cls, seed));
        LinkedHashMap<Object, Object> y = new LinkedHashMap<>();
        if (x.isEmpty()) return;
        Rng r = new Rng(seed);
        r.order = order;
        Object k = Collections.min(x.keySet(), Comparator.comparing(Object::toString));
        r.crowd(y, n, k, x.get(k));
        if (!o.isEmpty()) y.put(o.keySet().iterator().next(), o.values().iterator().next());
        f.set(m, r.map(y));
    }
    public static String[] maps(String cls) throws ReflectiveOperationException {
        return Arrays.stream(Class.forName(cls, true, Alone.class.getClassLoader()).getFields()).filter(f -> f.getType() == Map.class && !Modifier.isStatic(f.getModifiers())).map(Field::getName).sorted().toArray(String[]::new);
    }
    public static String recipe(String cls, long seed) {
        try {
            Object m = raw(cls, seed);
            Rng r = new Rng(seed * 31 + 7);
            List<Field> fs = new ArrayList<>();
            for (Field f : m.getClass().getFields()) if (!Modifier.isStatic(f.getModifiers())) fs.add(f);
            fs.sort(Comparator.comparing(Field::getName));
            StringBuilder b = new StringBuilder();
            Set<String> seen = new HashSet<>();
            ValidatorIndex x = new ReflectiveValidatorIndex();
            int goal = r.p(60) ? 1000 : 1 + r.n(12);
            String now = words(call(x.validatorFor(m.getClass()), m));
            for (int k = 0; k < 300 && goal > 0 && !now.equals("ok") && !fs.isEmpty(); k++) {
                Field f = fs.get(r.n(fs.size()));
                // the field complained of, if it is one of the message's own
                for (Field g : fs) if (r.p(80) && now.replace("_", "").toLowerCase().contains("." + g.getName().replace("_", "").toLowerCase())) f = g;
                long alt = 100000 + r.n(100000);
                Object old = f.get(m);
                f.set(m, f.get(raw(cls, alt)));
                String then = words(call(x.validatorFor(m.getClass()), m));
                if (then.equals("ok") || !then.equals(now) && r.p(40) || seen.add(then)) { b.append(f.getName()).append('=').append(alt).append(','); now = then; goal--; } else f.set(m, old);
            }
            return b.length() == 0 ? "-" : b.toString();
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }
    public static String answer(String cls, long seed, String recipe) {
        Object m = make(cls, seed, recipe);
        return words(call(new ReflectiveValidatorIndex().validatorFor(m.getClass()), m));
    }
    /** The same in a process, as it were, that has validated nothing before. */
    static String fresh(String cls, long seed, String recipe) {
        return G13.ALONE.computeIfAbsent(cls + " " + seed + " " + recipe, k -> {
            try {
                return (String) new Loader(Main.class.getClassLoader()).loadClass("simworld.Alone").getMethod("answer", String.class, long.class, String.class).invoke(null, cls, seed, recipe);
            } catch (ReflectiveOperationException e) {
                throw new IllegalStateException(e);
            }
        });
    }
}
