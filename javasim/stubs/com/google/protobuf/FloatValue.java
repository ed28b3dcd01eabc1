package com.google.protobuf;

public final class FloatValue extends com.google.protobuf.GeneratedMessageV3 {
    private float value_ = 0;
    public float getValue() { return value_; }
    private FloatValue() { }
    public static FloatValue of(float v) { return newBuilder().setValue(v).build(); }
    private static final FloatValue DEFAULT = new FloatValue();
    public static FloatValue getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(FloatValue p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private FloatValue copy() { FloatValue m = this, r = new FloatValue();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private FloatValue m = new FloatValue();
        public Builder setValue(float v) { m.value_ = v; return this; }
        public float getValue() { return m.value_; }
        public FloatValue build() { return m.copy(); }
        public FloatValue buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof FloatValue)) return false; FloatValue o = (FloatValue) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "FloatValue(" + value_ + ")"; }
}
