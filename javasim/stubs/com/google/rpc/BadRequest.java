package com.google.rpc;

import java.util.*;

public final class BadRequest extends com.google.protobuf.GeneratedMessageV3 {
    private List<BadRequest.FieldViolation> fieldViolations_ = new ArrayList<>();
    public List<BadRequest.FieldViolation> getFieldViolationsList() { return java.util.Collections.unmodifiableList(fieldViolations_); }
    public int getFieldViolationsCount() { return fieldViolations_.size(); }
    public BadRequest.FieldViolation getFieldViolations(int i) { return fieldViolations_.get(i); }
    private BadRequest() { }
    public static final class FieldViolation extends com.google.protobuf.GeneratedMessageV3 {
        private String field_ = "";
        public String getField() { return field_; }
        private String description_ = "";
        public String getDescription() { return description_; }
        private FieldViolation() { }
        private static final FieldViolation DEFAULT = new FieldViolation();
        public static FieldViolation getDefaultInstance() { return DEFAULT; }
        public static Builder newBuilder() { return new Builder(); }
        public static Builder newBuilder(FieldViolation p) { Builder b = new Builder(); b.m = p.copy(); return b; }
        public Builder toBuilder() { return newBuilder(this); }
        private FieldViolation copy() { FieldViolation m = this, r = new FieldViolation();
                r.field_ = m.field_;
                r.description_ = m.description_;
                return r; }
        public static final class Builder {
            private FieldViolation m = new FieldViolation();
            public Builder setField(String v) { m.field_ = java.util.Objects.requireNonNull(v); return this; }
            public String getField() { return m.field_; }
            public Builder setDescription(String v) { m.description_ = java.util.Objects.requireNonNull(v); return this; }
            public String getDescription() { return m.description_; }
            public FieldViolation build() { return m.copy(); }
            public FieldViolation buildPartial() { return m.copy(); }
        }
        @Override public boolean equals(Object q) { if (!(q instanceof FieldViolation)) return false; FieldViolation o = (FieldViolation) q; return java.util.Objects.equals(field_, o.field_) && java.util.Objects.equals(description_, o.description_); }
        @Override public int hashCode() { return java.util.Objects.hash(field_, description_); }
        @Override public String toString() { return "FieldViolation(" + field_ + ", " + description_ + ")"; }
    }
    
    private static final BadRequest DEFAULT = new BadRequest();
    public static BadRequest getDefaultInstance() { return DEFAULT; }
    public static Builder newBuilder() { return new Builder(); }
    public static Builder newBuilder(BadRequest p) { Builder b = new Builder(); b.m = p.copy(); return b; }
    public Builder toBuilder() { return newBuilder(this); }
    private BadRequest copy() { BadRequest m = this, r = new BadRequest();
            r.fieldViolations_ = new java.util.ArrayList<>(m.fieldViolations_);
            return r; }
    public static final class Builder {
        private BadRequest m = new BadRequest();
        public Builder addFieldViolations(BadRequest.FieldViolation v) { m.fieldViolations_.add(java.util.Objects.requireNonNull(v)); return this; }
        public Builder addFieldViolations(FieldViolation.Builder b) { return addFieldViolations(b.build()); }
        public Builder addAllFieldViolations(Iterable<? extends BadRequest.FieldViolation> v) { for (BadRequest.FieldViolation x : v) addFieldViolations(x); return this; }
        public Builder addFieldViolations(BadRequest.FieldViolation v, int unused) { return addFieldViolations(v); }
        public BadRequest build() { return m.copy(); }
        public BadRequest buildPartial() { return m.copy(); }
    }
    @Override public boolean equals(Object q) { if (!(q instanceof BadRequest)) return false; BadRequest o = (BadRequest) q; return java.util.Objects.equals(fieldViolations_, o.fieldViolations_); }
    @Override public int hashCode() { return java.util.Objects.hash(fieldViolations_); }
    @Override public String toString() { return "BadRequest(" + fieldViolations_ + ")"; }
}
