package pgvsim;

import java.util.*;
import jdk.internal.org.objectweb.asm.*;

/** Puts the simulator's seams into a class of the code under test. */
public final class Instr {
    private static final Map<String, String> SUB = new HashMap<>();      // classes made -> their simulated kind
    private static final Map<String, String[]> CALL = new HashMap<>();   // owner.name+desc -> name, desc in Sim (or class, name, desc)
    static {
        String u = "java/util/", r = "pgvsim/rt/";
        SUB.put(u + "concurrent/ConcurrentHashMap", r + "CHM");
        SUB.put(u + "HashMap", r + "HMap");
        SUB.put(u + "LinkedHashMap", r + "LMap");
        SUB.put(u + "WeakHashMap", r + "WMap");
        SUB.put(u + "IdentityHashMap", r + "IMap");
        SUB.put(u + "TreeMap", r + "TMap");
        SUB.put(u + "ArrayList", r + "AList");
        SUB.put(u + "HashSet", r + "HSet");
        SUB.put(u + "LinkedHashSet", r + "LSet");
        SUB.put(u + "ArrayDeque", r + "ADeque");
        SUB.put(u + "Hashtable", r + "Sync$HT");
        SUB.put(u + "Date", r + "SDate");
        String o = "java/lang/Object", c = u + "concurrent/", k = c + "locks/", L = "Ljava/util/concurrent/locks/", S = "pgvsim/Sim";
        put("java/lang/System.currentTimeMillis()J", S, "millis", "()J");
        put("java/lang/System.nanoTime()J", S, "nanos", "()J");
        put("java/time/Instant.now()Ljava/time/Instant;", S, "instant", "()Ljava/time/Instant;");
        put("java/time/Instant.now(Ljava/time/Clock;)Ljava/time/Instant;", S, "instant", "(Ljava/time/Clock;)Ljava/time/Instant;");
        put("java/time/Clock.systemUTC()Ljava/time/Clock;", S, "clockUtc", "()Ljava/time/Clock;");
        put("java/time/Clock.systemDefaultZone()Ljava/time/Clock;", S, "clockLocal", "()Ljava/time/Clock;");
        String z = "Ljava/time/ZoneId;", jt = "java/time/";
        for (String[] d : new String[][]{{"LocalDateTime", "localNow"}, {"LocalDate", "today"}, {"ZonedDateTime", "zonedNow"}, {"OffsetDateTime", "offsetNow"}}) {
            put(jt + d[0] + ".now()L" + jt + d[0] + ";", S, d[1], "()L" + jt + d[0] + ";");
            put(jt + d[0] + ".now(" + z + ")L" + jt + d[0] + ";", S, d[1], "(" + z + ")L" + jt + d[0] + ";");
        }
        put(jt + "Clock.tickMillis(" + z + ")Ljava/time/Clock;", S, "clockMillis", "(" + z + ")Ljava/time/Clock;");
        put(jt + "Clock.tickSeconds(" + z + ")Ljava/time/Clock;", S, "clockSeconds", "(" + z + ")Ljava/time/Clock;");
        put(u + "Calendar.getInstance()L" + u + "Calendar;", S, "calendar", "()L" + u + "Calendar;");
        put(u + "Calendar.getInstance(L" + u + "TimeZone;)L" + u + "Calendar;", S, "calendar", "(L" + u + "TimeZone;)L" + u + "Calendar;");
        put("java/time/Clock.system(Ljava/time/ZoneId;)Ljava/time/Clock;", S, "clockZone", "(Ljava/time/ZoneId;)Ljava/time/Clock;");
        put("java/lang/Thread.sleep(J)V", S, "sleep", "(J)V");
        put("java/lang/Thread.yield()V", S, "relax", "()V");
        put("java/lang/Thread.onSpinWait()V", S, "relax", "()V");
        put(o + ".wait()V", S, "wait_", "(Ljava/lang/Object;)V");
        put(o + ".wait(J)V", S, "wait_", "(Ljava/lang/Object;J)V");
        put(o + ".wait(JI)V", S, "wait_", "(Ljava/lang/Object;JI)V");
        put(o + ".notify()V", S, "notify_", "(Ljava/lang/Object;)V");
        put(o + ".notifyAll()V", S, "notify_", "(Ljava/lang/Object;)V");
        for (String l : new String[]{"Lock", "ReentrantLock", "ReentrantReadWriteLock$ReadLock", "ReentrantReadWriteLock$WriteLock"}) {
            put(k + l + ".lock()V", S, "lock", "(" + L + "Lock;)V");
            put(k + l + ".lockInterruptibly()V", S, "lock", "(" + L + "Lock;)V");
            put(k + l + ".tryLock(JLjava/util/concurrent/TimeUnit;)Z", S, "tryLock", "(" + L + "Lock;JLjava/util/concurrent/TimeUnit;)Z");
            put(k + l + ".unlock()V", S, "unlock", "(" + L + "Lock;)V");
        }
        put(k + "StampedLock.writeLock()J", S, "writeLock", "(" + L + "StampedLock;)J");
        put(k + "StampedLock.readLock()J", S, "readLock", "(" + L + "StampedLock;)J");
        put(k + "StampedLock.unlockWrite(J)V", S, "unlockWrite", "(" + L + "StampedLock;J)V");
        put(k + "StampedLock.unlockRead(J)V", S, "unlockRead", "(" + L + "StampedLock;J)V");
        put(k + "StampedLock.unlock(J)V", S, "unlockAny", "(" + L + "StampedLock;J)V");
        put(c + "CountDownLatch.await()V", S, "await", "(Ljava/util/concurrent/CountDownLatch;)V");
        put(c + "CountDownLatch.countDown()V", S, "countDown", "(Ljava/util/concurrent/CountDownLatch;)V");
        put(c + "Semaphore.acquire()V", S, "acquire", "(Ljava/util/concurrent/Semaphore;)V");
        put(c + "Semaphore.acquireUninterruptibly()V", S, "acquire", "(Ljava/util/concurrent/Semaphore;)V");
        put(c + "Semaphore.release()V", S, "release", "(Ljava/util/concurrent/Semaphore;)V");
        for (String f : new String[]{"Future", "FutureTask", "CompletableFuture"}) put(c + f + ".get()Ljava/lang/Object;", S, "get", "(Ljava/util/concurrent/Future;)Ljava/lang/Object;");
        put(c + "CompletableFuture.join()Ljava/lang/Object;", S, "join", "(Ljava/util/concurrent/CompletableFuture;)Ljava/lang/Object;");
        put(c + "CompletableFuture.complete(Ljava/lang/Object;)Z", S, "complete", "(Ljava/util/concurrent/CompletableFuture;Ljava/lang/Object;)Z");
        put(c + "CompletableFuture.completeExceptionally(Ljava/lang/Throwable;)Z", S, "fail", "(Ljava/util/concurrent/CompletableFuture;Ljava/lang/Throwable;)Z");
        put(c + "FutureTask.run()V", S, "runTask", "(Ljava/util/concurrent/FutureTask;)V");
        put(u + "Collections.synchronizedMap(Ljava/util/Map;)Ljava/util/Map;", r + "Sync", "map", "(Ljava/util/Map;)Ljava/util/Map;");
        put(u + "Collections.synchronizedCollection(Ljava/util/Collection;)Ljava/util/Collection;", r + "Sync", "coll", "(Ljava/util/Collection;)Ljava/util/Collection;");
        put(u + "Collections.synchronizedSet(Ljava/util/Set;)Ljava/util/Set;", r + "Sync", "set", "(Ljava/util/Set;)Ljava/util/Set;");
        put(c + "ConcurrentHashMap.newKeySet()Ljava/util/concurrent/ConcurrentHashMap$KeySetView;", r + "CHM", "newSet", "()Ljava/util/Set;");
    }
    private static void put(String key, String... to) { CALL.put(key, to); }

    /** What stands behind a call: null if the call stays as it is. */
    private static String[] redirect(String owner, String name, String desc) {
        return CALL.get(owner + "." + name + desc);
    }
    private static Handle handle(Handle h) {
        if (h.getTag() == Opcodes.H_NEWINVOKESPECIAL && SUB.containsKey(h.getOwner())) return new Handle(h.getTag(), SUB.get(h.getOwner()), h.getName(), h.getDesc(), false);
        String[] to = redirect(h.getOwner(), h.getName(), h.getDesc());
        if (to != null) return new Handle(Opcodes.H_INVOKESTATIC, to[0], to[1], to[2], false);
        return h;
    }

    public static byte[] apply(byte[] in) {
        ClassReader r = new ClassReader(in);
        ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
        r.accept(new ClassVisitor(Opcodes.ASM8, w) {
            String self;
            @Override public void visit(int v, int acc, String name, String sig, String sup, String[] itf) {
                self = name;
                super.visit(v, acc, name, null, SUB.getOrDefault(sup, sup), itf);
            }
            @Override public MethodVisitor visitMethod(int acc, String name, String desc, String sig, String[] ex) {
                boolean sync = (acc & Opcodes.ACC_SYNCHRONIZED) != 0, stat = (acc & Opcodes.ACC_STATIC) != 0, init = name.equals("<clinit>");
                MethodVisitor mv = super.visitMethod(acc & ~Opcodes.ACC_SYNCHRONIZED, name, desc, sig, ex);
                if ((acc & (Opcodes.ACC_ABSTRACT | Opcodes.ACC_NATIVE)) != 0) return mv;
                return new MethodVisitor(Opcodes.ASM8, mv) {
                    final Label from = new Label(), to = new Label();
                    void y() { if (!init) mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "y", "()V", false); }
                    void me() { if (stat) mv.visitLdcInsn(Type.getObjectType(self)); else mv.visitVarInsn(Opcodes.ALOAD, 0); }
                    void leave() {
                        if (init) mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "unmask", "()V", false);
                        if (sync) { me(); mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "exit", "(Ljava/lang/Object;)V", false); }
                    }
                    @Override public void visitCode() {
                        super.visitCode();
                        if (init) mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "mask", "()V", false);
                        if (sync) { me(); mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "enter", "(Ljava/lang/Object;)V", false); }
                        if (init || sync) mv.visitLabel(from);
                    }
                    @Override public void visitInsn(int op) {
                        if (op >= Opcodes.IRETURN && op <= Opcodes.RETURN) leave();
                        if (op == Opcodes.MONITORENTER) { mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "enter", "(Ljava/lang/Object;)V", false); return; }
                        if (op == Opcodes.MONITOREXIT) { mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "exit", "(Ljava/lang/Object;)V", false); return; }
                        if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) y();
                        super.visitInsn(op);
                    }
                    @Override public void visitMaxs(int a, int b) {
                        if (init || sync) {
                            mv.visitLabel(to);
                            mv.visitTryCatchBlock(from, to, to, null);
                            leave();
                            mv.visitInsn(Opcodes.ATHROW);
                        }
                        super.visitMaxs(a, b);
                    }
                    @Override public void visitFieldInsn(int op, String owner, String n, String d) {
                        y();
                        super.visitFieldInsn(op, owner, n, d);
                    }
                    @Override public void visitTypeInsn(int op, String t) { super.visitTypeInsn(op, op == Opcodes.NEW ? SUB.getOrDefault(t, t) : t); }
                    @Override public void visitMethodInsn(int op, String owner, String n, String d, boolean itf) {
                        if (n.equals("<init>")) {
                            String o = SUB.getOrDefault(owner, owner);
                            super.visitMethodInsn(op, o, n, d, itf);
                            return;
                        }
                        if (!init && !owner.startsWith("java/")) mv.visitMethodInsn(Opcodes.INVOKESTATIC, "pgvsim/Sim", "call", "()V", false);
                        else y();
                        String[] r = redirect(owner, n, d);
                        if (r == null && (n.equals("wait") || n.equals("notify") || n.equals("notifyAll"))) r = redirect("java/lang/Object", n, d);
                        if (r != null && op != Opcodes.INVOKESPECIAL) super.visitMethodInsn(Opcodes.INVOKESTATIC, r[0], r[1], r[2], false);
                        else if (op == Opcodes.INVOKESPECIAL && SUB.containsKey(owner)) super.visitMethodInsn(op, SUB.get(owner), n, d, itf);
                        else super.visitMethodInsn(op, owner, n, d, itf);
                    }
                    @Override public void visitInvokeDynamicInsn(String n, String d, Handle b, Object... args) {
                        Object[] q = args.clone();
                        for (int i = 0; i < q.length; i++) if (q[i] instanceof Handle) q[i] = handle((Handle) q[i]);
                        super.visitInvokeDynamicInsn(n, d, b, q);
                    }
                };
            }
        }, ClassReader.SKIP_FRAMES | ClassReader.SKIP_DEBUG * 0);
        return w.toByteArray();
    }
}
