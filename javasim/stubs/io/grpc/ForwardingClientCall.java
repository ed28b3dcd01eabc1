package io.grpc;

public abstract class ForwardingClientCall<ReqT, RespT> extends PartialForwardingClientCall<ReqT, RespT> {
    @Override protected abstract ClientCall<ReqT, RespT> delegate();
    @Override public void start(Listener<RespT> l, Metadata h) { delegate().start(l, h); }
    @Override public void sendMessage(ReqT m) { delegate().sendMessage(m); }
    public abstract static class SimpleForwardingClientCall<ReqT, RespT> extends ForwardingClientCall<ReqT, RespT> {
        private final ClientCall<ReqT, RespT> delegate;
        protected SimpleForwardingClientCall(ClientCall<ReqT, RespT> d) { delegate = d; }
        @Override protected ClientCall<ReqT, RespT> delegate() { return delegate; }
    }
}
