package io.grpc;

public final class MethodDescriptor<ReqT, RespT> {
    public enum MethodType { UNARY, CLIENT_STREAMING, SERVER_STREAMING, BIDI_STREAMING, UNKNOWN;
        public boolean clientSendsOneMessage() { return this == UNARY || this == SERVER_STREAMING; }
        public boolean serverSendsOneMessage() { return this == UNARY || this == CLIENT_STREAMING; } }
    private final MethodType type;
    private final String name;
    public MethodDescriptor(MethodType t, String n) { type = t; name = n; }
    public MethodType getType() { return type; }
    public String getFullMethodName() { return name; }
    public String getServiceName() { return name.substring(0, name.lastIndexOf('/')); }
    public String getBareMethodName() { return name.substring(name.lastIndexOf('/') + 1); }
}
