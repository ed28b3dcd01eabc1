package pgvsim;

import java.io.*;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

/** Gives every history its own copy of the code under test. */
public final class Loader extends ClassLoader {
    static { registerAsParallelCapable(); }
    private static final Map<String, byte[]> CODE = new ConcurrentHashMap<>();   // instrumented or plain class files

    /** Reads a tree of class files; name -> bytes. */
    public static Map<String, byte[]> tree(String dir, boolean instr) throws IOException {
        Map<String, byte[]> m = new TreeMap<>();
        Path d = Paths.get(dir);
        if (!Files.isDirectory(d)) return m;
        try (java.util.stream.Stream<Path> s = Files.walk(d)) {
            for (Path p : (Iterable<Path>) s::iterator) {
                String n = d.relativize(p).toString();
                if (!n.endsWith(".class")) continue;
                byte[] b = Files.readAllBytes(p);
                m.put(n.substring(0, n.length() - 6).replace('/', '.'), instr ? Instr.apply(b) : b);
            }
        }
        return m;
    }
    public static void add(Map<String, byte[]> m) { CODE.putAll(m); }

    private final Map<String, byte[]> own;
    public final String label;
    /** Called before a class is looked for; may throw. */
    public interface Seam { void load(Loader l, String name) throws ClassNotFoundException; }
    public Seam seam;

    /** The loader of a history. */
    public Loader(ClassLoader parent) { this(parent, CODE, "main"); }
    /** A loader below it, with classes of its own. */
    public Loader(ClassLoader parent, Map<String, byte[]> own, String label) { super(parent); this.own = own; this.label = label; }

    @Override public Class<?> loadClass(String name) throws ClassNotFoundException {
        if (seam != null) seam.load(this, name);
        return loadClass(name, false);
    }
    @Override public Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
        byte[] b = own.get(name);
        if (b == null) return super.loadClass(name, resolve);
        Sim.mask();
        try {
            synchronized (getClassLoadingLock(name)) {
                Class<?> c = findLoadedClass(name);
                return c != null ? c : defineClass(name, b, 0, b.length);
            }
        } finally {
            Sim.unmask();
        }
    }
    public String toString() { return label; }
}
