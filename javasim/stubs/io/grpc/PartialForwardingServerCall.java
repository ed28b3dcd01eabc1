package io.grpc;

abstract class PartialForwardingServerCall<ReqT, RespT> extends ServerCall<ReqT, RespT> {
    protected abstract ServerCall<?, ?> delegate();
    @Override public void request(int n) { delegate().request(n); }
    @Override public void sendHeaders(Metadata h) { delegate().sendHeaders(h); }
    @Override public boolean isReady() { return delegate().isReady(); }
    @Override public void close(Status s, Metadata t) { delegate().close(s, t); }
    @Override public boolean isCancelled() { return delegate().isCancelled(); }
    @Override public void setMessageCompression(boolean e) { delegate().setMessageCompression(e); }
    @Override public void setCompression(String c) { delegate().setCompression(c); }
    @Override public Attributes getAttributes() { return delegate().getAttributes(); }
    @Override public String getAuthority() { return delegate().getAuthority(); }
}
