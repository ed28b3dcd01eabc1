package io.grpc;

abstract class PartialForwardingClientCall<ReqT, RespT> extends ClientCall<ReqT, RespT> {
    protected abstract ClientCall<?, ?> delegate();
    @Override public void request(int n) { delegate().request(n); }
    @Override public void cancel(String m, Throwable c) { delegate().cancel(m, c); }
    @Override public void halfClose() { delegate().halfClose(); }
    @Override public void setMessageCompression(boolean e) { delegate().setMessageCompression(e); }
    @Override public boolean isReady() { return delegate().isReady(); }
    @Override public Attributes getAttributes() { return delegate().getAttributes(); }
    @Override public String toString() { return "ForwardingClientCall{" + delegate() + "}"; }
}
