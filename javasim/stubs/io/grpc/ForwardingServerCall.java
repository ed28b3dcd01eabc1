package io.grpc;

public abstract class ForwardingServerCall<ReqT, RespT> extends PartialForwardingServerCall<ReqT, RespT> {
    @Override protected abstract ServerCall<ReqT, RespT> delegate();
    @Override public void sendMessage(RespT m) { delegate().sendMessage(m); }
    @Override public MethodDescriptor<ReqT, RespT> getMethodDescriptor() { return delegate().getMethodDescriptor(); }
    public abstract static class SimpleForwardingServerCall<ReqT, RespT> extends ForwardingServerCall<ReqT, RespT> {
        private final ServerCall<ReqT, RespT> delegate;
        protected SimpleForwardingServerCall(ServerCall<ReqT, RespT> d) { delegate = d; }
        @Override protected ServerCall<ReqT, RespT> delegate() { return delegate; }
    }
}
