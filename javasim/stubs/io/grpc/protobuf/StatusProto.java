package io.grpc.protobuf;

import com.google.rpc.Status;
import io.grpc.Metadata;
import io.grpc.StatusException;
import io.grpc.StatusRuntimeException;

public final class StatusProto {
    private StatusProto() { }
    public static final Metadata.Key<Status> KEY = Metadata.Key.of("grpc-status-details-bin");
    private static io.grpc.Status status(Status s) {
        io.grpc.Status r = io.grpc.Status.fromCodeValue(s.getCode());
        if (r.getCode().value() != s.getCode()) throw new IllegalArgumentException("invalid status code");
        return r.withDescription(s.getMessage());
    }
    private static Metadata meta(Status s) { Metadata m = new Metadata(); m.put(KEY, s); return m; }
    private static Metadata meta(Status s, Metadata m) { m.discardAll(KEY); m.put(KEY, s); return m; }
    public static StatusRuntimeException toStatusRuntimeException(Status s) { return status(s).asRuntimeException(meta(s)); }
    public static StatusRuntimeException toStatusRuntimeException(Status s, Metadata m) { return status(s).asRuntimeException(meta(s, m)); }
    public static StatusException toStatusException(Status s) { return status(s).asException(meta(s)); }
    public static StatusException toStatusException(Status s, Metadata m) { return status(s).asException(meta(s, m)); }
    public static StatusException toStatusException(Status s, Metadata m, Throwable cause) { return status(s).withCause(cause).asException(meta(s, m)); }
    public static Status fromThrowable(Throwable t) {
        for (Throwable c = t; c != null; c = c.getCause()) {
            if (c instanceof StatusException) return fromStatusAndTrailers(((StatusException) c).getStatus(), ((StatusException) c).getTrailers());
            if (c instanceof StatusRuntimeException) return fromStatusAndTrailers(((StatusRuntimeException) c).getStatus(), ((StatusRuntimeException) c).getTrailers());
        }
        return null;
    }
    public static Status fromStatusAndTrailers(io.grpc.Status s, Metadata t) {
        Status d = t == null ? null : t.get(KEY);
        if (d != null) return d;
        return Status.newBuilder().setCode(s.getCode().value()).setMessage(s.getDescription() == null ? "" : s.getDescription()).build();
    }
}
