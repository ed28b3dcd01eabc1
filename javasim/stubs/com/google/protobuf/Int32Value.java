package com.google.protobuf;

public final class Int32Value extends com.google.protobuf.GeneratedMessageV3 {
    private int value_ = 0;
    public int getValue() { return value_; }
    private Int32Value() { }
    public static Int32Value of(int v) { return newBuilder().setValue(v).build(); }
    private static final Int32Value DEFAULT = new Int32Value();
    public static Int32Value getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(Int32Value p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private Int32Value copy() { Int32Value m = this, r = new Int32Value();
            r.value_ = m.value_;
            return r; }
    public static final class Builder {
        private Int32Value m = new Int32Value();
        public Builder setValue(int v) { m.value_ = v; return this; }
        public int getValue() { return m.value_; }
        public Int32Value build() { return m.copy(); }
        public Int32Value buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof Int32Value)) return false; Int32Value o = (Int32Value) q; return java.util.Objects.equals(value_, o.value_); }
    @Override public int hashCode() { return java.util.Objects.hash(value_); }
    @Override public String toString() { return "Int32Value(" + value_ + ")"; }
}
