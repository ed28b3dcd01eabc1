package com.google.protobuf;

public final class BoolValue extends com.google.protobuf.GeneratedMessageV3 {
    private boolean value_ = false;
    public boolean getValue() { return value_; }
    private BoolValue() { }
    public static BoolValue of(boolean v) { return newBuilder().setValue(v).build(); }
    private static final BoolValue DEFAULT = new BoolValue();
    public static BoolValue getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(BoolValue p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private BoolValue copy() { BoolValue m = this, r = new BoolValue();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private BoolValue m = new BoolValue();
        public Builder setValue(boolean v) { m.value_ = v; return this; }
        public boolean getValue() { return m.value_; }
        public BoolValue build() { return m.copy(); }
        public BoolValue buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof BoolValue)) return false; BoolValue o = (BoolValue) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "BoolValue(" + value_ + ")"; }
}
