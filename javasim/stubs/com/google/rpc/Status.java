package com.google.rpc;

import java.util.*;
import com.google.protobuf.Any;

public final class Status extends com.google.protobuf.GeneratedMessageV3 {
    private int code_ = 0;
    public int getCode() { return code_; }
    private String message_ = "";
    public String getMessage() { return message_; }
    private List<Any> details_ = new ArrayList<>();
    public List<Any> getDetailsList() { return java.util.Collections.unmodifiableList(details_); }
    public int getDetailsCount() { return details_.size(); }
    public Any getDetails(int i) { return details_.get(i); }
    private Status() { }
    private static final Status DEFAULT = new Status();
    public static Status getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(Status p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private Status copy() { Status m = this, r = new Status();
            r.code_ = m.code_;
            r.message_ = m.message_;
            r.details_ = new java.util.ArrayList<>(m.details_);
            return r; }
    public static final class Builder {
        private Status m = new Status();
        public Builder setCode(int v) { m.code_ = v; return this; }
        public int getCode() { return m.code_; }
        public Builder setMessage(String v) { m.message_ = java.util.Objects.requireNonNull(v); return this; }
        public String getMessage() { return m.message_; }
        public Builder addDetails(Any v) { m.details_.add(java.util.Objects.requireNonNull(v)); return this; }
        public Builder setCodeValue(int v) { return setCode(v); }
        public Builder addAllDetails(Iterable<? extends Any> v) { for (Any x : v) addDetails(x); return this; }
        public Builder addDetails(Any v, int unused) { return addDetails(v); }
        public Status build() { return m.copy(); }
        public Status buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof Status)) return false; Status o = (Status) q; return java.util.Objects.equals(code_, o.code_) && java.util.Objects.equals(message_, o.message_) && java.util.Objects.equals(details_, o.details_); }
    @Override public int hashCode() { return java.util.Objects.hash(code_, message_, details_); }
    @Override public String toString() { return "Status(" + code_ + ", " + message_ + ", " + details_ + ")"; }
}
