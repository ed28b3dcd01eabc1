package com.google.re2j;

/** Has state of its own, so calls on one matcher may not overlap. */
public final class Matcher {
    private final Pattern pattern;
    private java.util.regex.Matcher m;
    Matcher(Pattern p, CharSequence in) { pattern = p; m = p.p.matcher(in); }
    public Pattern pattern() { return pattern; }
    public Matcher reset() { m.reset(); return this; }
    public Matcher reset(CharSequence in) { m.reset(in); return this; }
    public boolean matches() { return m.matches(); }
    public boolean find() { return m.find(); }
    public boolean lookingAt() { return m.lookingAt(); }
    public String group() { return m.group(); }
    public int start() { return m.start(); }
    public int end() { return m.end(); }
}
