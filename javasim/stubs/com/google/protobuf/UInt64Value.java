package com.google.protobuf;

public final class UInt64Value extends com.google.protobuf.GeneratedMessageV3 {
    private long value_ = 0;
    public long getValue() { return value_; }
    private UInt64Value() { }
    public static UInt64Value of(long v) { return newBuilder().setValue(v).build(); }
    private static final UInt64Value DEFAULT = new UInt64Value();
    public static UInt64Value getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(UInt64Value p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private UInt64Value copy() { UInt64Value m = this, r = new UInt64Value();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private UInt64Value m = new UInt64Value();
        public Builder setValue(long v) { m.value_ = v; return this; }
        public long getValue() { return m.value_; }
        public UInt64Value build() { return m.copy(); }
        public UInt64Value buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof UInt64Value)) return false; UInt64Value o = (UInt64Value) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "UInt64Value(" + value_ + ")"; }
}
