package com.google.protobuf;

public final class UInt32Value extends com.google.protobuf.GeneratedMessageV3 {
    private int value_ = 0;
    public int getValue() { return value_; }
    private UInt32Value() { }
    public static UInt32Value of(int v) { return newBuilder().setValue(v).build(); }
    private static final UInt32Value DEFAULT = new UInt32Value();
    public static UInt32Value getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(UInt32Value p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private UInt32Value copy() { UInt32Value m = this, r = new UInt32Value();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private UInt32Value m = new UInt32Value();
        public Builder setValue(int v) { m.value_ = v; return this; }
        public int getValue() { return m.value_; }
        public UInt32Value build() { return m.copy(); }
        public UInt32Value buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof UInt32Value)) return false; UInt32Value o = (UInt32Value) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "UInt32Value(" + value_ + ")"; }
}
