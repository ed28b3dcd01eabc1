package com.google.protobuf;

public final class StringValue extends com.google.protobuf.GeneratedMessageV3 {
    private String value_ = "";
    public String getValue() { return value_; }
    private StringValue() { }
    public static StringValue of(String v) { return newBuilder().setValue(v).build(); }
    private static final StringValue DEFAULT = new StringValue();
    public static StringValue getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(StringValue p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private StringValue copy() { StringValue m = this, r = new StringValue();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private StringValue m = new StringValue();
        public Builder setValue(String v) { m.value_ = java.util.Objects.requireNonNull(v); return this; }
        public String getValue() { return m.value_; }
        public StringValue build() { return m.copy(); }
        public StringValue buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof StringValue)) return false; StringValue o = (StringValue) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "StringValue(" + value_ + ")"; }
}
