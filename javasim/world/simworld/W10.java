package simworld;

import io.envoyproxy.pgv.grpc.ValidatingServerInterceptor;
import io.grpc.*;
import java.util.*;
import pgvsim.*;

/** Calls of a server, their events in any interleaving, through the validating interceptor. */
public final class W10 extends Grpc {
    final class Call extends ServerCall<Object, Object> {
        String[] opt = new String[0];
        String name;
        boolean started, aborted, broken, serviceClosed, transportClosed, cancelled;
        int messages;
        ServerCall.Listener<Object> l;
        // during the current event
        final List<Object> seen = new ArrayList<>();
        final List<Object[]> closes = new ArrayList<>();
        Throwable service, closeFault;
        boolean inService;
        int requested, wanted;
        boolean has(String s) { for (String o : opt) if (o.equals(s)) return true; return false; }
        int num(String s, int d) { for (String o : opt) if (o.startsWith(s + "=")) return Integer.parseInt(o.substring(s.length() + 1)); return d; }

        @Override public void request(int n) { requested += n; }
        @Override public void sendHeaders(Metadata h) { }
        @Override public void sendMessage(Object m) { }
        @Override public boolean isCancelled() { return cancelled; }
        @Override public MethodDescriptor<Object, Object> getMethodDescriptor() { return METHOD; }
        @Override public void close(Status s, Metadata t) {
            Sim.y();
            closes.add(new Object[]{s, t, inService, transportClosed, inService ? null : t == null ? null : t.size()});
            if (transportClosed) throw new IllegalStateException("call already closed");
            transportClosed = true;
            if (!inService && has("closefails")) throw (Fault) (closeFault = inject("close", new Fault("close of " + name)));
            if (has("slowclose")) Sim.y();
        }
        /** After the call's status was looked at, the transport adds to the trailers, as it may. */
        void sent(Metadata t) { if (t != null) t.put(Metadata.Key.of("sent-by", Metadata.ASCII_STRING_MARSHALLER), name); }
    }
    static final MethodDescriptor<Object, Object> METHOD = new MethodDescriptor<>(MethodDescriptor.MethodType.BIDI_STREAMING, "sim.Service/Method");
    final Map<String, Call> calls = new TreeMap<>();
    final Object[] msgs = new Object[512];
    ValidatingServerInterceptor[] icp;

    final class Service extends ServerCall.Listener<Object> {
        final Call c;
        Call through;
        Service(Call c) { this.c = c; }
        private void in(Object what) {
            if (c.inService) sim.fail("the service of " + c.name + " was entered twice");
            c.inService = true;
            c.seen.add(what);
            Sim.y();
        }
        private void out() { c.inService = false; }
        @Override public void onMessage(Object m) {
            in(m);
            try {
                c.messages++;
                if (c.has("waits")) others((Integer) ((Sim.T) Thread.currentThread()).current);
                if (c.messages == c.num("closes", -1)) { c.serviceClosed = true; if (!c.transportClosed) ((ServerCall<Object, Object>) call).close(Status.OK, new Metadata()); }
                if (c.messages == c.num("throws", -1)) { c.service = inject("service", new Fault("service of " + c.name)); throw (Fault) c.service; }
                c.wanted++;
                call.request(1);
            } finally {
                out();
            }
        }
        ServerCall<Object, Object> call;
        @Override public void onHalfClose() {
            in("half");
            try {
                if (c.has("halfthrows")) { c.service = inject("service", new Fault("half-close of " + c.name)); throw (Fault) c.service; }
            } finally {
                out();
            }
        }
        @Override public void onCancel() { in("cancel"); out(); }
        @Override public void onComplete() { in("complete"); out(); }
        @Override public void onReady() { in("ready"); out(); }
    }

    @Override public void setup() throws Exception {
        shared();
        int n = 1;
        for (String[] o : plan.objs) {
            if (o[0].equals("call")) {
                Call c = new Call();
                c.name = o[1];
                c.opt = Arrays.copyOfRange(o, 2, o.length);
                calls.put(o[1], c);
            }
            if (o[0].equals("interceptors")) n = Integer.parseInt(o[1]);
        }
        icp = new ValidatingServerInterceptor[n];
        for (int i = 0; i < n; i++) icp[i] = new ValidatingServerInterceptor(index(true));
        for (int i = 0; i < plan.ops.size(); i++) {
            String[] o = plan.ops.get(i);
            if (o[3].equals("msg")) msgs[i] = message(o[4], o[5], i);
        }
    }
    @Override public void op(String[] o, int k) {
        Call c = calls.computeIfAbsent(o[2], x -> { Call q = new Call(); q.name = x; return q; });
        ready(before(k, 2));
        try {
            event(o, k, c);
        } finally {
            done[k] = true;
            Sim.progress();
        }
    }
    private void event(String[] o, int k, Call c) {
        String kind = o[3];
        if (kind.equals("start") ? c.started : !c.started || c.l == null) return;
        if (c.broken && !kind.equals("cancel")) return;
        c.seen.clear();
        c.closes.clear();
        c.service = null;
        c.closeFault = null;
        Throwable t = null;
        Object m = msgs[k];
        String what = String.join(" ", o) + (m == null ? "" : " " + m);
        try {
            switch (kind) {
                case "start": {
                    c.started = true;
                    Metadata h = new Metadata();
                    ServerCallHandler<Object, Object> next = (call, headers) -> {
                        if (headers != h) sim.fail(what + ": the service was given other headers");
                        if (call.getMethodDescriptor() != METHOD) sim.fail(what + ": the service was given another method");
                        if (c.has("startthrows")) throw (Fault) (c.service = inject("service", new Fault("start of " + c.name)));
                        c.seen.add("start");
                        Service s = new Service(c);
                        s.call = call;
                        return s;
                    };
                    c.l = icp[Math.floorMod(c.name.hashCode(), icp.length)].interceptCall(c, h, next);
                    break;
                }
                case "msg": c.l.onMessage(m); break;
                case "half": c.l.onHalfClose(); break;
                case "cancel": c.cancelled = true; c.l.onCancel(); break;
                case "complete": c.l.onComplete(); break;
                case "ready": c.l.onReady(); break;
                default: throw new IllegalArgumentException(kind);
            }
        } catch (Sim.Death d) {
            throw d;
        } catch (Throwable e) {
            t = e;
        }
        List<Object[]> ours = new ArrayList<>();
        for (Object[] x : c.closes) if (!(Boolean) x[2]) ours.add(x);
        String bad = judge(c, kind, m, t, ours, k);
        log.append(what).append(" -> ").append(c.seen).append(' ').append(ours.size()).append(' ').append(t == null ? "" : t.getClass().getName()).append('\n');
        hit(t != null ? "exceptions" : kind.equals("msg") ? c.seen.isEmpty() ? "stopped" : "delivered" : "other_events");
        if (bad != null) sim.fail(what + ": " + bad);
        for (Object[] x : c.closes) c.sent((Metadata) x[1]);
        if (c.requested != c.wanted) sim.fail(what + ": " + c.requested + " messages requested from the transport, " + c.wanted + " by the service");
    }
    private String threw(Throwable t, Throwable want) { return t == want ? null : "ended with " + brief(t) + " instead of " + brief(want); }
    private String judge(Call c, String kind, Object m, Throwable t, List<Object[]> ours, int k) {
        if (!kind.equals("msg") && !ours.isEmpty()) return "the interceptor closed the call";
        switch (kind) {
            case "start":
                if (t != null) c.broken = true;
                if (c.service == null && !c.seen.equals(Collections.singletonList("start"))) return "the service was started " + c.seen.size() + " times";
                if (t == null && c.l == null) return "no listener";
                return threw(t, c.service);
            case "half":
                if (c.aborted) return t != null ? threw(t, null) : c.seen.isEmpty() ? null : "the service saw " + c.seen + " of a call closed for an invalid message";
                // fall through
            case "cancel":
            case "complete":
                if (t != null) c.broken = true;
                if (!c.seen.equals(Collections.singletonList(kind))) return "the service saw " + c.seen;
                return threw(t, c.service);
            case "ready":
                if (c.aborted && t == null && c.seen.isEmpty()) return null;
                if (!c.seen.equals(Collections.singletonList(kind))) return "the service saw " + c.seen;
                return threw(t, null);
        }
        if (t != null) c.broken = true;
        if (c.aborted) {
            if (!c.seen.isEmpty()) return "the service saw a message of a call closed for an invalid message";
            if (!ours.isEmpty()) return "the call was closed once more";
            return threw(t, null);
        }
        if (injected[k] != null && injected[k] != c.service && injected[k] != c.closeFault) {
            // the index or a validator gave way
            if (!c.seen.isEmpty()) return "the service saw a message nobody could validate";
            if (!ours.isEmpty()) return "the call was closed";
            return threw(t, injected[k]);
        }
        String[] v = verdict(m);
        if (v == null) {
            if (!ours.isEmpty()) return "the interceptor closed the call for a valid message: " + ours.get(0)[0];
            if (c.seen.size() != 1 || c.seen.get(0) != m) return "the service saw " + c.seen;
            return threw(t, c.service);
        }
        c.aborted = true;
        c.broken = false;   // what the transport had queued by then still arrives, even if the close failed
        if (!c.seen.isEmpty()) return "the service saw an invalid message";
        if (c.serviceClosed) {
            if (ours.size() > 1) return "the call was closed " + ours.size() + " times";
            return t == null || t instanceof IllegalStateException ? null : threw(t, null);
        }
        if (ours.size() != 1) return "the call was closed " + ours.size() + " times" + (t == null ? "" : " and " + brief(t) + " thrown");
        String w = status((Status) ours.get(0)[0], (Metadata) ours.get(0)[1], v);
        if (w != null) return "the call was closed with " + w;
        return t == null ? null : threw(t, c.closeFault);
    }
    @Override public String judge() { return null; }
}
