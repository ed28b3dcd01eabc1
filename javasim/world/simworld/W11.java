package simworld;

import io.envoyproxy.pgv.grpc.ValidatingClientInterceptor;
import io.grpc.*;
import java.util.*;
import pgvsim.*;

/** Calls of a client, what the application does on them in any interleaving, through the validating interceptor. */
public final class W11 extends Grpc {
    /** The call as the application sees it, and the transport's side of it. */
    final class Call extends ClientCall<Object, Object> {
        String[] opt = new String[0];
        String name;
        MethodDescriptor<Object, Object> method;
        final CallOptions options = CallOptions.DEFAULT.withWaitForReady();
        final Attributes attrs = new Attributes();
        Metadata headers;
        ClientCall<Object, Object> app;
        Listener<Object> given;
        boolean broken;
        int made, sent;
        final List<Object> arrived = new ArrayList<>(), owed = new ArrayList<>();
        boolean has(String s) { for (String o : opt) if (o.equals(s)) return true; return false; }
        int num(String s, int d) { for (String o : opt) if (o.startsWith(s + "=")) return Integer.parseInt(o.substring(s.length() + 1)); return d; }

        /** The transport is told something, by the operation its thread is in. */
        private void in(String what, Object... x) {
            Sim.y();
            List<Object> s = seen.get((Integer) ((Sim.T) Thread.currentThread()).current);
            s.add(this);
            s.add(what);
            s.addAll(Arrays.asList(x));
            if (has("fail=" + what)) throw inject(what, new Fault(what + " of " + name));
            Sim.y();
        }
        @Override public void start(Listener<Object> l, Metadata h) { given = l; in("start", h); }
        @Override public void request(int n) { in("request", n); }
        @Override public void cancel(String m, Throwable t) { in("cancel", m, t); }
        @Override public void halfClose() { in("half"); }
        @Override public void sendMessage(Object m) {
            arrived.add(m);
            in("msg", m);
            if (has("waits")) others((Integer) ((Sim.T) Thread.currentThread()).current);
            if (++sent == num("send", -1)) throw inject("send", new Fault("send of " + name));
        }
        @Override public boolean isReady() { in("ready"); return !has("unready"); }
        @Override public void setMessageCompression(boolean e) { in("compress", e); }
        @Override public Attributes getAttributes() { in("attrs"); return attrs; }
    }
    /** The application's listener. */
    final class App extends ClientCall.Listener<Object> {
        final Call c;
        App(Call c) { this.c = c; }
        private void in(String what, Object... x) {
            Sim.y();
            List<Object> s = seen.get((Integer) ((Sim.T) Thread.currentThread()).current);
            s.add(this);
            s.add(what);
            s.addAll(Arrays.asList(x));
            if (c.has("fail=listener")) throw inject("listener", new Fault(what + " of " + c.name));
            // an application may send from its listener
            Sim.y();
        }
        @Override public void onHeaders(Metadata h) { in("headers", h); }
        @Override public void onMessage(Object m) { in("message", m); }
        @Override public void onClose(Status s, Metadata t) { in("close", s, t); }
        @Override public void onReady() { in("ready"); }
    }
    final Map<String, Call> calls = new TreeMap<>();
    final Map<Integer, List<Object>> seen = new HashMap<>();
    final Map<Call, App> apps = new IdentityHashMap<>();
    final Object[] msgs = new Object[512];
    ValidatingClientInterceptor[] icp;

    @Override public void setup() throws Exception {
        shared();
        int n = 1;
        for (String[] o : plan.objs) {
            if (o[0].equals("call")) {
                Call c = new Call();
                c.name = o[1];
                c.opt = Arrays.copyOfRange(o, 2, o.length);
                calls.put(o[1], c);
            }
            if (o[0].equals("interceptors")) n = Integer.parseInt(o[1]);
        }
        icp = new ValidatingClientInterceptor[n];
        for (int i = 0; i < n; i++) icp[i] = new ValidatingClientInterceptor(index(true));
        for (int i = 0; i < plan.ops.size(); i++) {
            String[] o = plan.ops.get(i);
            seen.put(i, new ArrayList<>());
            Call c = calls.computeIfAbsent(o[2], x -> { Call q = new Call(); q.name = x; return q; });
            MethodDescriptor.MethodType[] t = MethodDescriptor.MethodType.values();
            c.method = new MethodDescriptor<>(t[Math.floorMod(c.name.hashCode() + (int) plan.seed, t.length)], "sim.Service/" + c.name);
            apps.put(c, new App(c));
            if (o[3].equals("msg")) msgs[i] = message(o[4], o[5], i);
        }
    }
    /** What has to be over before this operation may begin: cancel may come at any time, what comes in is independent of what goes out. */
    private List<Integer> order(int k) {
        List<Integer> l = new ArrayList<>();
        String[] me = plan.ops.get(k);
        boolean in = me[3].equals("in");
        for (int i : before(k, 2)) {
            String x = plan.ops.get(i)[3];
            if (x.equals("new") || x.equals("start") || !me[3].equals("cancel") && x.equals("in") == in && !x.equals("cancel")) l.add(i);
        }
        return l;
    }
    @Override public void op(String[] o, int k) {
        Call c = calls.get(o[2]);
        ready(order(k));
        try {
            event(o, k, c);
        } finally {
            done[k] = true;
            Sim.progress();
        }
    }
    private void event(String[] o, int k, Call c) {
        String kind = o[3];
        if (kind.equals("new") ? c.made > 0 : c.app == null || c.broken) return;
        if (kind.equals("start") ? c.headers != null : !kind.equals("new") && c.headers == null) return;
        if (kind.equals("in") && c.given == null) return;
        List<Object> s = seen.get(k);
        Throwable t = null;
        Object m = msgs[k], result = null;
        List<Object> want = new ArrayList<>();
        String what = String.join(" ", o) + (m == null ? "" : " " + m);
        App app = apps.get(c);
        want.add(c);
        try {
            switch (kind) {
                case "new": {
                    c.made++;
                    Channel ch = new Channel() {
                        @SuppressWarnings("unchecked")
                        @Override public <A, B> ClientCall<A, B> newCall(MethodDescriptor<A, B> d, CallOptions x) {
                            c.in("newcall", d, x);
                            return (ClientCall<A, B>) (ClientCall<?, ?>) c;
                        }
                        @Override public String authority() { return "sim"; }
                    };
                    want.addAll(Arrays.asList("newcall", c.method, c.options));
                    ValidatingClientInterceptor i = icp[Math.floorMod(c.name.hashCode(), icp.length)];
                    c.app = i.interceptCall(c.method, c.options, ch);
                    if (c.app == null) sim.fail(what + ": no call");
                    break;
                }
                case "start": want.addAll(Arrays.asList("start", c.headers = new Metadata())); c.app.start(app, c.headers); break;
                case "msg": want.addAll(Arrays.asList("msg", m)); c.app.sendMessage(m); break;
                case "half": want.add("half"); c.app.halfClose(); break;
                case "cancel": { Throwable why = new Fault("why"); want.addAll(Arrays.asList("cancel", "over", why)); c.app.cancel("over", why); break; }
                case "request": want.addAll(Arrays.asList("request", Integer.valueOf(o[4]))); c.app.request(Integer.parseInt(o[4])); break;
                case "isready": want.add("ready"); result = c.app.isReady() == !c.has("unready"); break;
                case "compress": want.addAll(Arrays.asList("compress", k % 2 == 0)); c.app.setMessageCompression(k % 2 == 0); break;
                case "attrs": want.add("attrs"); result = c.app.getAttributes() == c.attrs; break;
                case "in": {
                    want.set(0, app);
                    want.add(o[4]);
                    Metadata h = new Metadata();
                    switch (o[4]) {
                        case "headers": want.add(h); c.given.onHeaders(h); break;
                        case "message": { Object x = new High(3, k); want.add(x); c.given.onMessage(x); break; }
                        case "ready": c.given.onReady(); break;
                        default: want.addAll(Arrays.asList(Status.OK, h)); c.given.onClose(Status.OK, h);
                    }
                    break;
                }
                default: throw new IllegalArgumentException(kind);
            }
        } catch (Sim.Death d) {
            throw d;
        } catch (Throwable e) {
            t = e;
        }
        log.append(what).append(" -> ").append(s.size()).append(' ').append(t == null ? "" : t.getClass().getName()).append('\n');
        String[] v = kind.equals("msg") ? verdict(m) : null;
        hit(t != null && v == null ? "exceptions" : kind.equals("msg") ? v == null ? "delivered" : "stopped" : "other_events");
        String bad;
        if (v == null || injected[k] != null) {
            // nothing wrong with it: as if the interceptor were not there
            boolean half = injected[k] != null && kind.equals("msg") && s.isEmpty();
            bad = t != injected[k] ? "ended with " + brief(t) + " instead of " + brief(injected[k])
                : half || same(s, want) ? result == null || result.equals(true) ? null : "another answer than the transport's" : (kind.equals("in") ? "the application" : "the transport") + " saw " + show(s) + " instead of " + show(want);
            if (bad == null && v != null && !s.isEmpty()) bad = "the transport saw an invalid message";
            if (kind.equals("msg") && !half) c.owed.add(m);
        } else {
            bad = !s.isEmpty() ? "the transport saw " + show(s) + " of an invalid message" : !(t instanceof StatusRuntimeException) ? "ended with " + brief(t)
                : status(((StatusRuntimeException) t).getStatus(), ((StatusRuntimeException) t).getTrailers(), v);
            if (t instanceof StatusRuntimeException && ((StatusRuntimeException) t).getTrailers() != null) ((StatusRuntimeException) t).getTrailers().put(Metadata.Key.of("seen-by", Metadata.ASCII_STRING_MARSHALLER), what);
        }
        if (kind.equals("new") && t != null || kind.equals("start") && t != null) c.broken = true;
        if (bad != null) sim.fail(what + ": " + bad);
    }
    private static boolean same(List<Object> a, List<Object> b) {
        if (a.size() != b.size()) return false;
        for (int i = 0; i < a.size(); i++) {
            Object x = a.get(i), y = b.get(i);
            if (x != y && !(x instanceof String && x.equals(y)) && !(x instanceof Integer && x.equals(y)) && !(x instanceof Boolean && x.equals(y))) return false;
        }
        return true;
    }
    private static String show(List<Object> l) {
        StringBuilder b = new StringBuilder("[");
        for (Object o : l) b.append(o instanceof Call ? ((Call) o).name : o instanceof App ? "listener of " + ((App) o).c.name : o instanceof Metadata ? "headers" : o instanceof CallOptions ? "options" : o).append(' ');
        return b.append("]").toString();
    }
    @Override public String judge() {
        for (Call c : calls.values())
            if (!same(c.arrived, c.owed)) return c.name + ": the transport received " + show(c.arrived) + ", the application sent " + show(c.owed);
        return null;
    }
}
