package com.google.re2j;

public class PatternSyntaxException extends RuntimeException {
    public PatternSyntaxException(String m) { super(m); }
}
