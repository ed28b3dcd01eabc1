package org.apache.commons.validator.routines;

/** Stateless stand-in: a local part, an at sign, a domain. */
public class EmailValidator implements java.io.Serializable {
    private final boolean local;
    protected EmailValidator(boolean l) { local = l; }
    public static EmailValidator getInstance() { return new EmailValidator(false); }
    public static EmailValidator getInstance(boolean allowLocal) { return new EmailValidator(allowLocal); }
    public static EmailValidator getInstance(boolean allowLocal, boolean allowTld) { return new EmailValidator(allowLocal); }
    public boolean isValid(String e) {
        if (e == null) return false;
        int i = e.lastIndexOf('@');
        if (i < 1 || i > 64 || e.indexOf(' ') >= 0 || e.indexOf('@') != i || e.startsWith(".") || e.charAt(i - 1) == '.' || e.contains("..")) return false;
        return DomainValidator.getInstance(local).isValid(e.substring(i + 1));
    }
}
