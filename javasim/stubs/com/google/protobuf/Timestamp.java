package com.google.protobuf;

public final class Timestamp extends com.google.protobuf.GeneratedMessageV3 {
    private long seconds_ = 0;
    public long getSeconds() { return seconds_; }
    private int nanos_ = 0;
    public int getNanos() { return nanos_; }
    private Timestamp() { }
    private static final Timestamp DEFAULT = new Timestamp();
    public static Timestamp getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(Timestamp p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private Timestamp copy() { Timestamp m = this, r = new Timestamp();
            r.seconds_ = m.seconds_;
            r.nanos_ = m.nanos_;
            return r; }
    public static final class Builder {
        private Timestamp m = new Timestamp();
        public Builder setSeconds(long v) { m.seconds_ = v; return this; }
        public long getSeconds() { return m.seconds_; }
        public Builder setNanos(int v) { m.nanos_ = v; return this; }
        public int getNanos() { return m.nanos_; }
        public Timestamp build() { return m.copy(); }
        public Timestamp buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof Timestamp)) return false; Timestamp o = (Timestamp) q; return java.util.Objects.equals(seconds_, o.seconds_) && java.util.Objects.equals(nanos_, o.nanos_); }
    @Override public int hashCode() { return java.util.Objects.hash(seconds_, nanos_); }
    @Override public String toString() { return "Timestamp(" + seconds_ + ", " + nanos_ + ")"; }
}
