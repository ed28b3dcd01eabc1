package io.grpc;

import java.util.Objects;

public final class Status {
    public enum Code { OK, CANCELLED, UNKNOWN, INVALID_ARGUMENT, DEADLINE_EXCEEDED, NOT_FOUND, ALREADY_EXISTS, PERMISSION_DENIED, RESOURCE_EXHAUSTED, FAILED_PRECONDITION, ABORTED, OUT_OF_RANGE, UNIMPLEMENTED, INTERNAL, UNAVAILABLE, DATA_LOSS, UNAUTHENTICATED;
        public int value() { return ordinal(); }
        public Status toStatus() { return new Status(this, null, null); } }
    public static final Status OK = Code.OK.toStatus();
    public static final Status CANCELLED = Code.CANCELLED.toStatus();
    public static final Status UNKNOWN = Code.UNKNOWN.toStatus();
    public static final Status INVALID_ARGUMENT = Code.INVALID_ARGUMENT.toStatus();
    public static final Status DEADLINE_EXCEEDED = Code.DEADLINE_EXCEEDED.toStatus();
    public static final Status NOT_FOUND = Code.NOT_FOUND.toStatus();
    public static final Status ALREADY_EXISTS = Code.ALREADY_EXISTS.toStatus();
    public static final Status PERMISSION_DENIED = Code.PERMISSION_DENIED.toStatus();
    public static final Status RESOURCE_EXHAUSTED = Code.RESOURCE_EXHAUSTED.toStatus();
    public static final Status FAILED_PRECONDITION = Code.FAILED_PRECONDITION.toStatus();
    public static final Status ABORTED = Code.ABORTED.toStatus();
    public static final Status OUT_OF_RANGE = Code.OUT_OF_RANGE.toStatus();
    public static final Status UNIMPLEMENTED = Code.UNIMPLEMENTED.toStatus();
    public static final Status INTERNAL = Code.INTERNAL.toStatus();
    public static final Status UNAVAILABLE = Code.UNAVAILABLE.toStatus();
    public static final Status DATA_LOSS = Code.DATA_LOSS.toStatus();
    public static final Status UNAUTHENTICATED = Code.UNAUTHENTICATED.toStatus();
    private final Code code;
    private final String description;
    private final Throwable cause;
    private Status(Code c, String d, Throwable t) { code = Objects.requireNonNull(c); description = d; cause = t; }
    public static Status fromCode(Code c) { return c.toStatus(); }
    public static Status fromCodeValue(int v) { return v < 0 || v >= Code.values().length ? UNKNOWN.withDescription("Unknown code " + v) : Code.values()[v].toStatus(); }
    public static Status fromThrowable(Throwable t) {
        for (Throwable c = t; c != null; c = c.getCause()) {
            if (c instanceof StatusException) return ((StatusException) c).getStatus();
            if (c instanceof StatusRuntimeException) return ((StatusRuntimeException) c).getStatus();
        }
        return UNKNOWN.withCause(t);
    }
    public static Metadata trailersFromThrowable(Throwable t) {
        for (Throwable c = t; c != null; c = c.getCause()) {
            if (c instanceof StatusException) return ((StatusException) c).getTrailers();
            if (c instanceof StatusRuntimeException) return ((StatusRuntimeException) c).getTrailers();
        }
        return null;
    }
    public Status withCause(Throwable t) { return new Status(code, description, t); }
    public Status withDescription(String d) { return new Status(code, d, cause); }
    public Status augmentDescription(String d) { return d == null ? this : description == null ? withDescription(d) : withDescription(description + "\n" + d); }
    public Code getCode() { return code; }
    public String getDescription() { return description; }
    public Throwable getCause() { return cause; }
    public boolean isOk() { return code == Code.OK; }
    public StatusRuntimeException asRuntimeException() { return new StatusRuntimeException(this); }
    public StatusRuntimeException asRuntimeException(Metadata t) { return new StatusRuntimeException(this, t); }
    public StatusException asException() { return new StatusException(this); }
    public StatusException asException(Metadata t) { return new StatusException(this, t); }
    static String format(Status s) { return s.description == null ? s.code.toString() : s.code + ": " + s.description; }
    @Override public String toString() { return "Status{code=" + code + ", description=" + description + ", cause=" + cause + "}"; }
}
