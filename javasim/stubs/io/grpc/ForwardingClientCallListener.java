package io.grpc;

public abstract class ForwardingClientCallListener<T> extends ClientCall.Listener<T> {
    protected abstract ClientCall.Listener<T> delegate();
    @Override public void onHeaders(Metadata h) { delegate().onHeaders(h); }
    @Override public void onMessage(T m) { delegate().onMessage(m); }
    @Override public void onClose(Status s, Metadata t) { delegate().onClose(s, t); }
    @Override public void onReady() { delegate().onReady(); }
    public abstract static class SimpleForwardingClientCallListener<T> extends ForwardingClientCallListener<T> {
        private final ClientCall.Listener<T> delegate;
        protected SimpleForwardingClientCallListener(ClientCall.Listener<T> d) { delegate = d; }
        @Override protected ClientCall.Listener<T> delegate() { return delegate; }
    }
}
