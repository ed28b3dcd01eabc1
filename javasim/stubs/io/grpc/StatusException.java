package io.grpc;

public class StatusException extends Exception {
    private final Status status;
    private final Metadata trailers;
    public StatusException(Status s) { this(s, null); }
    public StatusException(Status s, Metadata t) { super(Status.format(s), s.getCause()); status = s; trailers = t; }
    public final Status getStatus() { return status; }
    public final Metadata getTrailers() { return trailers; }
}
