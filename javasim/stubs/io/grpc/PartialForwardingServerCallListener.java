package io.grpc;

abstract class PartialForwardingServerCallListener<T> extends ServerCall.Listener<T> {
    protected abstract ServerCall.Listener<?> delegate();
    @Override public void onHalfClose() { delegate().onHalfClose(); }
    @Override public void onCancel() { delegate().onCancel(); }
    @Override public void onComplete() { delegate().onComplete(); }
    @Override public void onReady() { delegate().onReady(); }
}
