package com.google.protobuf;

public final class DoubleValue extends com.google.protobuf.GeneratedMessageV3 {
    private double value_ = 0;
    public double getValue() { return value_; }
    private DoubleValue() { }
    public static DoubleValue of(double v) { return newBuilder().setValue(v).build(); }
    private static final DoubleValue DEFAULT = new DoubleValue();
    public static DoubleValue getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(DoubleValue p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private DoubleValue copy() { DoubleValue m = this, r = new DoubleValue();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private DoubleValue m = new DoubleValue();
        public Builder setValue(double v) { m.value_ = v; return this; }
        public double getValue() { return m.value_; }
        public DoubleValue build() { return m.copy(); }
        public DoubleValue buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof DoubleValue)) return false; DoubleValue o = (DoubleValue) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "DoubleValue(" + value_ + ")"; }
}
