package org.apache.commons.validator.routines;

/** Stateless stand-in. */
public class InetAddressValidator implements java.io.Serializable {
    private static final InetAddressValidator V = new InetAddressValidator();
    public static InetAddressValidator getInstance() { return V; }
    public boolean isValid(String a) { return isValidInet4Address(a) || isValidInet6Address(a); }
    public boolean isValidInet4Address(String a) {
        String[] p = a.split("\\.", -1);
        if (p.length != 4) return false;
        for (String s : p) {
            if (s.isEmpty() || s.length() > 3 || s.length() > 1 && s.startsWith("0")) return false;
            for (char c : s.toCharArray()) if (c < '0' || c > '9') return false;
            if (Integer.parseInt(s) > 255) return false;
        }
        return true;
    }
    public boolean isValidInet6Address(String a) {
        boolean gap = a.contains("::");
        if (gap && a.indexOf("::") != a.lastIndexOf("::")) return false;
        if (a.startsWith(":") && !a.startsWith("::") || a.endsWith(":") && !a.endsWith("::")) return false;
        int n = 0;
        for (String s : a.split(":", -1)) {
            if (s.isEmpty()) continue;
            if (s.length() > 4) return false;
            for (char c : s.toCharArray()) if (Character.digit(c, 16) < 0 || c > 127) return false;
            n++;
        }
        return gap ? n <= 7 : n == 8;
    }
}
