package com.google.protobuf;

public abstract class GeneratedMessageV3 extends AbstractMessage {
    /** The same text in every execution: no address in it. */
    @Override public String toString() {
        StringBuilder r = new StringBuilder(getClass().getName()).append('(');
        for (java.lang.reflect.Field f : getClass().getFields()) {
            if (java.lang.reflect.Modifier.isStatic(f.getModifiers())) continue;
            try {
                r.append(f.getName()).append('=').append(f.get(this)).append(' ');
            } catch (IllegalAccessException e) {
                throw new IllegalStateException(e);
            }
        }
        return r.append(')').toString();
    }
}
