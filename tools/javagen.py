"""Message classes for the Java simulation, written from a descriptor set: what
protoc-gen-java would give, cut down to what validators and the worlds use, with
a maker that fills a message from a seed, mostly near the edges of its rules."""
import os, struct

def varint(b, i):
    v = s = 0
    while True:
        c = b[i]; i += 1
        v |= (c & 127) << s
        s += 7
        if c < 128: return v, i
def wire(b):
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        n, w = t >> 3, t & 7
        if w == 0: v, i = varint(b, i)
        elif w == 1: v = b[i:i + 8]; i += 8
        elif w == 5: v = b[i:i + 4]; i += 4
        else:
            l, i = varint(b, i)
            v = b[i:i + l]; i += l
        yield n, v
def many(b, n): return [v for k, v in wire(b) if k == n]
def one(b, n, d=None):
    x = many(b, n)
    return x[-1] if x else d
def text(b, n): return one(b, n, b"").decode()

NUM = {1: ("double", "Double"), 2: ("float", "Float"), 3: ("long", "Long"), 4: ("long", "Long"), 5: ("int", "Integer"), 6: ("long", "Long"), 7: ("int", "Integer"),
       8: ("boolean", "Boolean"), 13: ("int", "Integer"), 15: ("int", "Integer"), 16: ("long", "Long"), 17: ("int", "Integer"), 18: ("long", "Long")}
WKT = {"Timestamp", "Duration", "Any", "StringValue", "BytesValue", "BoolValue", "Int32Value", "Int64Value", "UInt32Value", "UInt64Value", "FloatValue", "DoubleValue"}
UNBOX = {"StringValue": 9, "BytesValue": 12, "BoolValue": 8, "Int32Value": 5, "Int64Value": 3, "UInt32Value": 13, "UInt64Value": 4, "FloatValue": 2, "DoubleValue": 1}
LIT = {1: "%rd", 2: "%rf", 3: "%dL", 4: "%dL", 16: "%dL", 18: "%dL"}

def camel(s):
    out, up = "", True
    for c in s:
        if c == "_": up = True
        elif up: out += c.upper(); up = False
        else: out += c; up = c.isdigit()
    return out
def q(s): return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\' else "".join("\\u%04x" % u for u in struct.unpack(">%dH" % (len(c.encode("utf-16-be")) // 2), c.encode("utf-16-be"))) for c in s) + '"'

def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v
def number(t, raw):
    """A number of field type t as the rules carry it."""
    if t == 1: return struct.unpack("<d", raw)[0]
    if t == 2: return struct.unpack("<f", raw)[0]
    if t in (15, 7): return signed(struct.unpack("<I", raw)[0], 32)
    if t in (16, 6): return signed(struct.unpack("<Q", raw)[0], 64)
    if t in (17, 18): return (raw >> 1) ^ -(raw & 1)
    return signed(raw, 64 if t in (3, 4) else 32)

RULE = {1: 2, 2: 1, 3: 5, 4: 3, 5: 13, 6: 4, 7: 17, 8: 18, 9: 7, 10: 6, 11: 15, 12: 16}   # rule number -> field type

class Gen:
    def __init__(self, fds):
        self.files = [f for f in many(fds, 1)]
        self.names = {}   # .pkg.Msg -> java name
        self.msgs = {}    # .pkg.Msg -> descriptor bytes
        self.enums = {}
        for f in self.files:
            o = one(f, 8, b"")
            pkg = text(f, 2)
            jp = text(o, 1) or pkg
            outer = None if one(o, 10, 0) else (text(o, 8) or self.outer(f))
            for m in many(f, 4): self.index(m, "." + pkg, jp + "." + (outer + "." if outer else ""))
            for e in many(f, 5):
                self.names["." + pkg + "." + text(e, 1)] = jp + "." + (outer + "." if outer else "") + text(e, 1)
                self.enums["." + pkg + "." + text(e, 1)] = e
    def outer(self, f):
        n = camel(text(f, 1).split("/")[-1][:-6])
        if n in [text(m, 1) for m in many(f, 4) + many(f, 5)]: n += "OuterClass"
        return n
    def index(self, m, scope, js):
        n = scope + "." + text(m, 1)
        self.names[n] = js + text(m, 1)
        self.msgs[n] = m
        for k in many(m, 3): self.index(k, n, js + text(m, 1) + ".")
        for e in many(m, 4):
            self.names[n + "." + text(e, 1)] = js + text(m, 1) + "." + text(e, 1)
            self.enums[n + "." + text(e, 1)] = e

    # ---- values
    def lit(self, t, v):
        if t == 1: return "Double.longBitsToDouble(%dL)" % signed(struct.unpack("<Q", struct.pack("<d", v))[0], 64)
        if t == 2: return "Float.intBitsToFloat(%d)" % signed(struct.unpack("<I", struct.pack("<f", v))[0], 32)
        if t == 8: return "true" if v else "false"
        return "%dL" % signed(v, 64) if NUM[t][0] == "long" else "%d" % signed(v, 32)
    def numbers(self, t, rules):
        if t == 8: return ["true", "true", "true", "false"]
        vs = []
        body = b""
        for n, ft in RULE.items():
            if ft == t: body = one(rules, n, b"")
        for n, raw in wire(body):
            if n <= 7:
                v = number(t, raw)
                vs += [v, v, v - 1, v + 1] if n != 7 else [v, v + 1]
        vs += [0, 1, -1, 3] if not vs else [0, 5]
        return [self.lit(t, v) for v in vs]
    def strings(self, rules):
        r = one(rules, 14, b"")
        vs, words = [], []
        pre = suf = con = ""
        for n, raw in wire(r):
            if n in (1, 6, 7, 8, 9, 10, 11, 23): words.append(raw.decode())
            if n in (1, 10): vs += [raw.decode()] * 2
            if n == 11: vs.append(raw.decode())
            if n == 7: pre = raw.decode()
            if n == 8: suf = raw.decode()
            if n == 9: con = raw.decode()
            if n in (2, 3, 19):
                vs += ["abcdefghijk"[:raw % 12], "abcdefghijk"[:(raw + 1) % 12], "\u00e9\U0001f600zyxwvut"[:raw % 8]]
            if n in (4, 5, 20): vs += ["q" * (raw % 40), "q" * ((raw + 1) % 40), "\u00e9" * (raw // 2 % 20)]
            if n == 6: vs += ["abc", "abc1", "a", "aaa", "q123", "Abc", "1", "ab-c", "qqqq"]
            if n == 12: vs += ["a@example.com", "Foo <foo@bar.com>", "no email", "a@", "\u00e9@x.com"]
            if n == 13: vs += ["example.com", "ex_ample.com", "a-.com", "host", "\u00fc.com", "-a.b"]
            if n == 14: vs += ["1.2.3.4", "::1", "1.2.3", "ff::gg"]
            if n == 15: vs += ["1.2.3.4", "::1", "300.1.1.1"]
            if n == 16: vs += ["::1", "fe80::1:2", "1.2.3.4", "::1::"]
            if n == 17: vs += ["http://a.b/c", "/rel", "http://[", "a:b"]
            if n == 18: vs += ["http://a.b/c", "/rel", "a b", "%zz"]
            if n == 21: vs += ["example.com", "1.2.3.4", "::1", "not valid!", "host_"]
            if n == 22: vs += ["00000000-0000-0000-0000-000000000000", "0123ABCD-ef01-2345-6789-abcdefabcdef", "0123abcd", "0000000g-0000-0000-0000-000000000000"]
            if n == 24: vs += ["Host", "x-y", "a b", ":path", "v\u0001"]
        if pre or suf or con: vs += [pre + con + suf] * 3 + [pre + "mid" + suf, pre, suf, con]
        return [q(v) for v in (vs or ["a", "bc", "def"]) + ["", "hello"]]
    def blobs(self, rules):
        r = one(rules, 15, b"")
        vs, pre, suf, con = [], b"", b"", b""
        for n, raw in wire(r):
            if n in (1, 8): vs += [raw] * 2
            if n == 9: vs.append(raw)
            if n == 5: pre = raw
            if n == 6: suf = raw
            if n == 7: con = raw
            if n in (2, 3, 13): vs += [b"x" * (raw % 20), b"x" * ((raw + 1) % 20)]
            if n == 4: vs += [b"xyz", b"abc", b"aaa"]
            if n in (10, 11, 12): vs += [b"\1\2\3\4", b"\0" * 16, b"\1\2"]
        if pre or suf or con: vs += [pre + con + suf] * 2 + [pre, con]
        return ['com.google.protobuf.ByteString.copyFrom(%s.getBytes(java.nio.charset.StandardCharsets.ISO_8859_1))' % q(v.decode("latin1")) for v in (vs or [b"a", b"bc"]) + [b"", b"\xff"]]
    def times(self, rules, n):
        vs = []
        for k, raw in wire(one(rules, n, b"")):
            if k in (2, 3, 4, 5, 6, 7, 8) and isinstance(raw, bytes):
                s, ns = signed(one(raw, 1, 0), 64), signed(one(raw, 2, 0), 32)
                vs += [(s, ns), (s, ns), (s + 1, ns), (s - 1, ns), (s, ns + 1 if 0 <= ns else ns - 1)]
        return vs or [(0, 0), (5, 1), (-3, 0), (1500000000, 0)]
    def value(self, t, tn, rules, depth="d + 1"):
        """A Java expression for one value; r is the source of choices."""
        if t == 9: return "r.str(" + ", ".join(self.strings(rules)) + ")"
        if t == 12: return "r.of(" + ", ".join(self.blobs(rules)) + ")"
        if t == 14:
            vals = [number(5, one(v, 2, 0)) for v in many(self.enums[tn], 2)]
            return "%s.of(r.of(%s))" % (self.names[tn], ", ".join("%d" % v for v in vals + vals + [77]))
        if t == 11:
            w = tn[len(".google.protobuf."):] if tn.startswith(".google.protobuf.") else ""
            if w in ("Timestamp", "Duration"):
                return "r.of(" + ", ".join("com.google.protobuf.%s.newBuilder().setSeconds(%dL).setNanos(%d).build()" % ((w,) + v) for v in self.times(rules, 22 if w == "Timestamp" else 21)) + ")"
            if w == "Any":
                us = [raw.decode() for k, raw in wire(one(rules, 20, b"")) if k in (2, 3)] + ["type.googleapis.com/other.T"]
                return "com.google.protobuf.Any.newBuilder().setTypeUrl(r.of(%s)).build()" % ", ".join(map(q, us + us))
            if w in UNBOX: return "com.google.protobuf.%s.of(%s)" % (w, self.value(UNBOX[w], "", rules))
            return "%s.make(r, %s)" % (self.names[tn], depth)
        return "r.of(" + ", ".join("(%s) %s" % (NUM[t][1], x) if 0 else "%s.valueOf(%s)" % (NUM[t][1], x) for x in self.numbers(t, rules)) + ")"
    def jtype(self, t, tn, box=False):
        if t == 9: return "String"
        if t == 12: return "com.google.protobuf.ByteString"
        if t in (11, 14):
            w = tn.split(".")[-1]
            return "com.google.protobuf." + w if tn.startswith(".google.protobuf.") else self.names[tn]
        return NUM[t][1 if box else 0]
    def default(self, t, tn):
        if t == 9: return '""'
        if t == 12: return "com.google.protobuf.ByteString.EMPTY"
        if t == 14: return "%s.of(0)" % self.names[tn]
        if t == 11: return "%s.getDefaultInstance()" % self.jtype(t, tn)
        return {"boolean": "false", "double": "0d", "float": "0f", "long": "0L", "int": "0"}[NUM[t][0]]

    # ---- classes
    def enum(self, e, ind, top=False):
        n = text(e, 1)
        vs = [(text(v, 1), number(5, one(v, 2, 0))) for v in many(e, 2)]
        return ind + "public %senum %s implements com.google.protobuf.ProtocolMessageEnum {\n%s  %s, UNRECOGNIZED(-1);\n%s  private final int n;\n%s  %s(int n) { this.n = n; }\n%s  public int getNumber() { if (this == UNRECOGNIZED) throw new IllegalArgumentException(\"Can't get the number of an unknown enum value.\"); return n; }\n%s  public static %s forNumber(int k) { for (%s e : values()) if (e != UNRECOGNIZED && e.n == k) return e; return null; }\n%s  public static %s of(int k) { %s e = forNumber(k); return e == null ? UNRECOGNIZED : e; }\n%s}\n" % (
            "" if top else "static ", n, ind, ", ".join("%s(%d)" % v for v in vs), ind, ind, n, ind, ind, n, n, ind, n, n, ind)
    def message(self, m, full, ind, top=False):
        n = text(m, 1)
        full += "." + n
        o = [ind + "public %sfinal class %s extends com.google.protobuf.GeneratedMessageV3 {" % ("" if top else "static ", n)]
        i2 = ind + "  "
        oneofs = [text(x, 1) for x in many(m, 8)]
        synth = set()
        F = []
        for f in many(m, 2):
            oi = one(f, 9)
            if one(f, 17): synth.add(oi)
            F.append((text(f, 1), one(f, 4), one(f, 5), text(f, 6), b"".join(many(one(f, 8, b""), 1071)), oi, bool(one(f, 17))))
        make = [i2 + "public static %s make(pgvsim.Rng r, int d) {" % n, i2 + "  %s m = new %s();" % (n, n)]
        eq, hs, ts = [], [], []
        for name, label, t, tn, rules, oi, opt in F:
            c = camel(name)
            fn = c[0].lower() + c[1:] + "_"
            ent = self.msgs.get(tn) if t == 11 else None
            ismap = ent is not None and one(one(ent, 7, b""), 7, 0)
            inner = t == 11 and not tn.startswith(".google.protobuf.")
            if ismap:
                kf, vf = [next(x for x in many(ent, 2) if one(x, 3) == k) for k in (1, 2)]
                kt, vt, vn = one(kf, 5), one(vf, 5), text(vf, 6)
                mr = one(rules, 19, b"")
                ty = "java.util.Map<%s, %s>" % (self.jtype(kt, "", True), self.jtype(vt, vn, True))
                o.append(i2 + "public %s %s = java.util.Collections.emptyMap();" % (ty, fn))
                o.append(i2 + "public %s get%sMap() { return %s; }" % (ty, c, fn))
                o.append(i2 + "public int get%sCount() { return %s.size(); }" % (c, fn))
                deep = vt == 11 and not vn.startswith(".google.protobuf.")
                make.append(i2 + "  if (%sr.p(70)) { java.util.LinkedHashMap<%s, %s> x = new java.util.LinkedHashMap<>(); int n = r.size(%d, d); if (n > 8 && r.p(70)) { r.crowd(x, n, %s, %s); n = r.n(3); } for (int k = n; k > 0; k--) x.put(%s, %s); m.%s = r.map(x); }"
                            % ("r.deep(d) && " if deep else "", self.jtype(kt, "", True), self.jtype(vt, vn, True), 3 if deep else 5, *[self.value(kt, "", one(mr, 4, b"")), self.value(vt, vn, one(mr, 5, b""))] * 2, fn))
            elif label == 3:
                rr = one(rules, 18, b"")
                ty = "java.util.List<%s>" % self.jtype(t, tn, True)
                o.append(i2 + "public %s %s = java.util.Collections.emptyList();" % (ty, fn))
                o.append(i2 + "public %s get%sList() { return %s; }" % (ty, c, fn))
                o.append(i2 + "public int get%sCount() { return %s.size(); }" % (c, fn))
                make.append(i2 + "  if (%sr.p(75)) { java.util.ArrayList<%s> x = new java.util.ArrayList<>(); for (int k = r.size(%d, d); k > 0; k--) x.add(%s); m.%s = java.util.Collections.unmodifiableList(x); }"
                            % ("r.deep(d) && " if inner else "", self.jtype(t, tn, True), 3 if inner else 5, self.value(t, tn, one(rr, 4, b"")), fn))
            else:
                ty = self.jtype(t, tn, oi is not None or t == 11)
                box = oi is not None or t == 11
                o.append(i2 + "public %s %s%s;" % (ty, fn, "" if box else " = " + self.default(t, tn)))
                prim = self.jtype(t, tn)
                o.append(i2 + "public %s get%s() { return %s; }" % (prim, c, "%s != null ? %s : %s" % (fn, fn, self.default(t, tn)) if box else fn))
                if box: o.append(i2 + "public boolean has%s() { return %s != null; }" % (c, fn))
                if oi is None or opt:
                    make.append(i2 + "  if (%sr.p(%d)) m.%s = %s;" % ("r.deep(d) && " if inner else "", 55 if inner else 85, fn, self.value(t, tn, rules)))
            eq.append("java.util.Objects.equals(%s, o.%s)" % (fn, fn))
            hs.append(fn)
            ts.append('"%s=" + %s' % (name, fn))
        for k, on in enumerate(oneofs):
            if k in synth: continue
            c = camel(on)
            fs = [f for f in F if f[5] == k]
            o.append(i2 + "public enum %sCase { %s, %s_NOT_SET }" % (c, ", ".join(f[0].upper() for f in fs), on.replace("_", "").upper()))
            o.append(i2 + "public %sCase get%sCase() { %s return %sCase.%s_NOT_SET; }" % (c, c, " ".join("if (%s != null) return %sCase.%s;" % (camel(f[0])[0].lower() + camel(f[0])[1:] + "_", c, f[0].upper()) for f in fs), c, on.replace("_", "").upper()))
            make.append(i2 + "  switch (r.n(%d)) {" % (len(fs) + 1))
            for j, f in enumerate(fs):
                fn = camel(f[0])[0].lower() + camel(f[0])[1:] + "_"
                g = "if (r.deep(d)) " if f[2] == 11 and not f[3].startswith(".google") else ""
                make.append(i2 + "    case %d: %sm.%s = %s; break;" % (j, g, fn, self.value(f[2], f[3], f[4])))
            make.append(i2 + "  }")
        make += [i2 + "  return m;", i2 + "}"]
        o += make
        o.append(i2 + "private static final %s DEFAULT = new %s();" % (n, n))
        o.append(i2 + "public static %s getDefaultInstance() { return DEFAULT; }" % n)
        o.append(i2 + "@Override public boolean equals(Object x) { if (!(x instanceof %s)) return false; %s o = (%s) x; return %s; }" % (n, n, n, " && ".join(eq) or "true"))
        o.append(i2 + "@Override public int hashCode() { return java.util.Objects.hash(%s); }" % (", ".join(hs) or "1"))
        o.append(i2 + '@Override public String toString() { return "%s{" + %s "}"; }' % (n, "".join(x + ' + ";" + ' for x in ts)))
        for e in many(m, 4): o.append(self.enum(e, i2))
        for k in many(m, 3):
            if not one(one(k, 7, b""), 7, 0): o.append(self.message(k, full, i2))
        o.append(ind + "}")
        return "\n".join(o)
    def write(self, out, want):
        for f in self.files:
            if text(f, 1) not in want: continue
            o = one(f, 8, b"")
            pkg = text(f, 2)
            jp = text(o, 1) or pkg
            d = out + "/" + jp.replace(".", "/")
            os.makedirs(d, exist_ok=True)
            head = "package %s;\n" % jp
            if one(o, 10, 0):
                for m in many(f, 4): open(d + "/%s.java" % text(m, 1), "w").write(head + self.message(m, "." + pkg, "", True) + "\n")
                for e in many(f, 5): open(d + "/%s.java" % text(e, 1), "w").write(head + self.enum(e, "", True))
            else:
                n = text(o, 8) or self.outer(f)
                open(d + "/%s.java" % n, "w").write(head + "public final class %s {\n%s\n%s}\n" % (n, "\n".join(self.message(m, "." + pkg, "  ") for m in many(f, 4)), "".join(self.enum(e, "  ") for e in many(f, 5))))
    def classes(self, want):
        """Binary names of the message classes of the wanted files."""
        r = []
        for f in self.files:
            if text(f, 1) not in want: continue
            o = one(f, 8, b"")
            pkg = text(f, 2)
            jp = text(o, 1) or pkg
            pre = jp + "." + ("" if one(o, 10, 0) else (text(o, 8) or self.outer(f)) + "$")
            def rec(m, p):
                if one(one(m, 7, b""), 7, 0): return
                r.append(p + text(m, 1))
                for k in many(m, 3): rec(k, p + text(m, 1) + "$")
            for m in many(f, 4): rec(m, pre)
        return r

if __name__ == "__main__":
    import sys
    g = Gen(open(sys.argv[1], "rb").read())
    g.write(sys.argv[2], set(sys.argv[3:]))
    print("\n".join(g.classes(set(sys.argv[3:]))))
