package org.apache.commons.validator.routines;

/** Stateless stand-in: labels of letters, digits and inner dashes. */
public class DomainValidator implements java.io.Serializable {
    private static final DomainValidator A = new DomainValidator(false), B = new DomainValidator(true);
    private final boolean local;
    private DomainValidator(boolean l) { local = l; }
    public static DomainValidator getInstance() { return A; }
    public static DomainValidator getInstance(boolean allowLocal) { return allowLocal ? B : A; }
    public boolean isAllowLocal() { return local; }
    public boolean isValid(String d) {
        if (d == null || d.isEmpty() || d.length() > 253) return false;
        String[] ls = (d.endsWith(".") ? d.substring(0, d.length() - 1) : d).split("\\.", -1);
        for (String l : ls) {
            if (l.isEmpty() || l.length() > 63 || l.startsWith("-") || l.endsWith("-")) return false;
            for (char c : l.toCharArray()) if (!(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-')) return false;
        }
        String tld = ls[ls.length - 1];
        for (char c : tld.toCharArray()) if (c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') return local || ls.length > 1;
        return false;
    }
}
