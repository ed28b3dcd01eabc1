package com.google.rpc;

public enum Code implements com.google.protobuf.ProtocolMessageEnum { OK, CANCELLED, UNKNOWN, INVALID_ARGUMENT, DEADLINE_EXCEEDED, NOT_FOUND, ALREADY_EXISTS, PERMISSION_DENIED, RESOURCE_EXHAUSTED, FAILED_PRECONDITION, ABORTED, OUT_OF_RANGE, UNIMPLEMENTED, INTERNAL, UNAVAILABLE, DATA_LOSS, UNAUTHENTICATED;
    @Override public int getNumber() { return ordinal(); }
    public static Code forNumber(int n) { return n < 0 || n >= values().length ? null : values()[n]; } }
