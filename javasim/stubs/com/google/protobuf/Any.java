package com.google.protobuf;

public final class Any extends com.google.protobuf.GeneratedMessageV3 {
    private String typeUrl_ = "";
    public String getTypeUrl() { return typeUrl_; }
    private ByteString value_ = ByteString.EMPTY;
    public ByteString getValue() { return value_; }
    private Any() { }
    private Object packed;
    public static Any pack(Message m) { return pack(m, "type.googleapis.com"); }
    public static Any pack(Message m, String prefix) { Any a = newBuilder().setTypeUrl(prefix + "/" + m.getClass().getName().replace('$', '.')).setValue(ByteString.copyFromUtf8(m.toString())).build(); a.packed = java.util.Objects.requireNonNull(m); return a; }
    public boolean is(Class<?> c) { return c.isInstance(packed); }
    public <T extends Message> T unpack(Class<T> c) { return c.cast(packed); }
    private static final Any DEFAULT = new Any();
    public static Any getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(Any p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private Any copy() { Any m = this, r = new Any();
            r.typeUrl_ = m.typeUrl_;
            r.value_ = m.value_;
            r.packed = m.packed; return r; }
    public static final class Builder {
        private Any m = new Any();
        public Builder setTypeUrl(String v) { m.typeUrl_ = java.util.Objects.requireNonNull(v); return this; }
        public String getTypeUrl() { return m.typeUrl_; }
        public Builder setValue(ByteString v) { m.value_ = java.util.Objects.requireNonNull(v); return this; }
        public ByteString getValue() { return m.value_; }
        public Any build() { return m.copy(); }
        public Any buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof Any)) return false; Any o = (Any) q; return java.util.Objects.equals(typeUrl_, o.typeUrl_) && java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(typeUrl_, value_); }
    @Override public String toString() { return "Any(" + typeUrl_ + ", " + value_ + ")"; }
}
