package com.google.protobuf;

public final class Int64Value extends com.google.protobuf.GeneratedMessageV3 {
    private long value_ = 0;
    public long getValue() { return value_; }
    private Int64Value() { }
    public static Int64Value of(long v) { return newBuilder().setValue(v).build(); }
    private static final Int64Value DEFAULT = new Int64Value();
    public static Int64Value getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(Int64Value p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private Int64Value copy() { Int64Value m = this, r = new Int64Value();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private Int64Value m = new Int64Value();
        public Builder setValue(long v) { m.value_ = v; return this; }
        public long getValue() { return m.value_; }
        public Int64Value build() { return m.copy(); }
        public Int64Value buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof Int64Value)) return false; Int64Value o = (Int64Value) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "Int64Value(" + value_ + ")"; }
}
