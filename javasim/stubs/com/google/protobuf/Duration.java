package com.google.protobuf;

public final class Duration extends com.google.protobuf.GeneratedMessageV3 {
    private long seconds_ = 0;
    public long getSeconds() { return seconds_; }
    private int nanos_ = 0;
    public int getNanos() { return nanos_; }
    private Duration() { }
    private static final Duration DEFAULT = new Duration();
    public static Duration getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(Duration p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private Duration copy() { Duration m = this, r = new Duration();
            r.seconds_ = m.seconds_;
            r.nanos_ = m.nanos_;
            return r; }
    public static final class Builder {
        private Duration m = new Duration();
        public Builder setSeconds(long v) { m.seconds_ = v; return this; }
        public long getSeconds() { return m.seconds_; }
        public Builder setNanos(int v) { m.nanos_ = v; return this; }
        public int getNanos() { return m.nanos_; }
        public Duration build() { return m.copy(); }
        public Duration buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof Duration)) return false; Duration o = (Duration) q; return java.util.Objects.equals(seconds_, o.seconds_) && java.util.Objects.equals(nanos_, o.nanos_); }
    @Override public int hashCode() { return java.util.Objects.hash(seconds_, nanos_); }
    @Override public String toString() { return "Duration(" + seconds_ + ", " + nanos_ + ")"; }
}
