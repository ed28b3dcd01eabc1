package com.google.re2j;

/** Patterns are immutable and may be shared; matchers may not. */
public final class Pattern implements java.io.Serializable {
    public static final int CASE_INSENSITIVE = 1, DOTALL = 2, MULTILINE = 4, DISABLE_UNICODE_GROUPS = 8;
    final java.util.regex.Pattern p;
    private Pattern(java.util.regex.Pattern p) { this.p = p; }
    public static Pattern compile(String s) { return compile(s, 0); }
    public static Pattern compile(String s, int f) {
        try {
            return new Pattern(java.util.regex.Pattern.compile(s));
        } catch (java.util.regex.PatternSyntaxException e) {
            throw new PatternSyntaxException(e.getMessage());
        }
    }
    public static boolean matches(String r, CharSequence in) { return compile(r).matcher(in).matches(); }
    public boolean matches(String in) { return p.matcher(in).matches(); }
    public Matcher matcher(CharSequence in) { return new Matcher(this, in); }
    public String pattern() { return p.pattern(); }
    public static String quote(String s) { return java.util.regex.Pattern.quote(s); }
    public boolean find(String in) { return p.matcher(in).find(); }
    @Override public String toString() { return p.pattern(); }
}
