package io.grpc;

public abstract class ForwardingServerCallListener<T> extends PartialForwardingServerCallListener<T> {
    @Override protected abstract ServerCall.Listener<T> delegate();
    @Override public void onMessage(T m) { delegate().onMessage(m); }
    public abstract static class SimpleForwardingServerCallListener<T> extends ForwardingServerCallListener<T> {
        private final ServerCall.Listener<T> delegate;
        protected SimpleForwardingServerCallListener(ServerCall.Listener<T> d) { delegate = d; }
        @Override protected ServerCall.Listener<T> delegate() { return delegate; }
    }
}
