package com.google.protobuf;

public final class BytesValue extends com.google.protobuf.GeneratedMessageV3 {
    private ByteString value_ = ByteString.EMPTY;
    public ByteString getValue() { return value_; }
    private BytesValue() { }
    public static BytesValue of(ByteString v) { return newBuilder().setValue(v).build(); }
    private static final BytesValue DEFAULT = new BytesValue();
    public static BytesValue getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(BytesValue p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private BytesValue copy() { BytesValue m = this, r = new BytesValue();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private BytesValue m = new BytesValue();
        public Builder setValue(ByteString v) { m.value_ = java.util.Objects.requireNonNull(v); return this; }
        public ByteString getValue() { return m.value_; }
        public BytesValue build() { return m.copy(); }
        public BytesValue buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof BytesValue)) return false; BytesValue o = (BytesValue) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "BytesValue(" + value_ + ")"; }
}
