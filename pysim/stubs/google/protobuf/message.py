"""A small stand-in for the Python protobuf runtime (not installed here): message
classes made from a descriptor set, with the behaviour validators rely on."""
import struct

class Error(Exception): pass
class DecodeError(Error): pass

def varint(b, i):
    v = s = 0
    while True:
        c = b[i]; i += 1
        v |= (c & 127) << s
        s += 7
        if c < 128: return v, i
def wire(b):
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        n, w = t >> 3, t & 7
        if w == 0: v, i = varint(b, i)
        elif w == 1: v = b[i:i + 8]; i += 8
        elif w == 5: v = b[i:i + 4]; i += 4
        else:
            l, i = varint(b, i)
            v = b[i:i + l]; i += l
        yield n, w, v
def many(b, n): return [v for k, _, v in wire(b) if k == n]
def one(b, n, d=None):
    x = many(b, n)
    return x[-1] if x else d
def text(b, n): return one(b, n, b"").decode()
def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v

FLOATS = {1: ("<d", 8), 2: ("<f", 4)}
FIXED = {6: "<Q", 16: "<q", 7: "<I", 15: "<i"}
DEFAULT = {1: 0.0, 2: 0.0, 8: False, 9: "", 12: b""}

class EnumValueDescriptor:
    def __init__(self, b): self.name, self.number = text(b, 1), signed(one(b, 2, 0), 32)
class EnumDescriptor:
    def __init__(self, b, full):
        self.name, self.full_name = text(b, 1), full
        self.values = [EnumValueDescriptor(v) for v in many(b, 2)]
        self.values_by_number = {}
        for v in self.values: self.values_by_number.setdefault(v.number, v)
        self.values_by_name = {v.name: v for v in self.values}
class OneofDescriptor:
    def __init__(self, pool, b, full):
        self.name, self.full_name, self.fields = text(b, 1), full, []
        self._o, self._pool, self._opts = one(b, 2, b""), pool, None
    def GetOptions(self):
        if self._opts is None: self._opts = Options(self._pool, self._o, "google.protobuf.OneofOptions")
        return self._opts
class FieldDescriptor:
    TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32, TYPE_BOOL, TYPE_STRING = range(1, 10)
    TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM, TYPE_SFIXED32, TYPE_SFIXED64, TYPE_SINT32, TYPE_SINT64 = range(11, 19)
    LABEL_OPTIONAL, LABEL_REQUIRED, LABEL_REPEATED = 1, 2, 3
    def __init__(self, pool, b, full, proto3, owner=None):
        self.name, self.full_name, self.number, self.label, self.type = text(b, 1), full, one(b, 3), one(b, 4), one(b, 5)
        self._tn, self._pool, self._proto3 = text(b, 6).lstrip("."), pool, proto3
        self._o, self._opts = b"".join(many(b, 8)), None
        self.containing_type, self.containing_oneof = owner, None
        self.oneof_index = one(b, 9)
        self.proto3_optional = bool(one(b, 17, 0))
        self.message_type = self.enum_type = None
        self._def = text(b, 7)
    @property
    def has_presence(self): return self.label != 3 and (self.message_type is not None or self.containing_oneof is not None or not self._proto3)
    @property
    def is_map(self): return self.label == 3 and self.message_type is not None and self.message_type.is_map_entry
    def link(self):
        if self.type in (11, 10): self.message_type = self._pool.messages[self._tn]
        if self.type == 14: self.enum_type = self._pool.enums[self._tn]
        self.default_value = DEFAULT.get(self.type, 0) if self.type != 14 else self.enum_type.values[0].number
        if self._def and self.type == 14: self.default_value = self.enum_type.values_by_name[self._def].number
        elif self._def: self.default_value = {"true": True, "false": False}.get(self._def, self._def) if self.type in (8, 9) else int(self._def)
    def GetOptions(self):
        if self._opts is None: self._opts = Options(self._pool, self._o, "google.protobuf.FieldOptions")
        return self._opts
class Descriptor:
    def __init__(self, pool, b, full, proto3, outer=None):
        self.name, self.full_name, self.containing_type = text(b, 1), full, outer
        self._pool, self._opts = pool, None
        self._o = b"".join(many(b, 7))
        self.is_map_entry = bool(one(self._o, 7, 0))
        self.fields = [FieldDescriptor(pool, f, full + "." + text(f, 1), proto3, self) for f in many(b, 2)]
        self.fields_by_name = {f.name: f for f in self.fields}
        self.fields_by_number = {f.number: f for f in self.fields}
        self.oneofs = [OneofDescriptor(pool, o, full + "." + text(o, 1)) for o in many(b, 8)]
        self.oneofs_by_name = {o.name: o for o in self.oneofs}
        for f in self.fields:
            if f.oneof_index is not None:
                f.containing_oneof = self.oneofs[f.oneof_index]
                f.containing_oneof.fields.append(f)
        self._cls = None
    @property
    def nested_types(self): return [m for m in self._pool.messages.values() if m.containing_type is self]
    @property
    def nested_types_by_name(self): return {m.name: m for m in self.nested_types}
    def GetOptions(self):
        if self._opts is None: self._opts = Options(self._pool, self._o, "google.protobuf.MessageOptions")
        return self._opts

class Pool:
    def __init__(self, fds):
        self.messages, self.enums, self.extensions = {}, {}, {}
        for f in many(fds, 1):
            pkg = text(f, 2)
            p3 = text(f, 12) == "proto3"
            for m in many(f, 4): self._msg(m, (pkg + "." if pkg else "") + text(m, 1), p3, None)
            for e in many(f, 5): self._enum(e, (pkg + "." if pkg else "") + text(e, 1))
            for x in many(f, 7):
                d = FieldDescriptor(self, x, (pkg + "." if pkg else "") + text(x, 1), False)
                self.extensions[text(x, 2).lstrip("."), d.number] = d
        for m in self.messages.values():
            for f in m.fields: f.link()
        for x in self.extensions.values(): x.link()
    def _msg(self, b, full, p3, outer):
        d = self.messages[full] = Descriptor(self, b, full, p3, outer)
        for k in many(b, 3): self._msg(k, full + "." + text(k, 1), p3, d)
        for e in many(b, 4): self._enum(e, full + "." + text(e, 1))
    def _enum(self, b, full): self.enums[full] = EnumDescriptor(b, full)
    def cls(self, full):
        d = self.messages[full]
        if d._cls is None: d._cls = type(d.name, (Message,), {"DESCRIPTOR": d, "__module__": full.rpartition(".")[0] + "_pb2", "__slots__": ()})
        return d._cls

class Options:
    """Options of a descriptor: only the extensions are of interest."""
    def __init__(self, pool, b, kind):
        got = {}
        for n, w, v in wire(b):
            x = pool.extensions.get((kind, n))
            if x is not None: got.setdefault(x, []).append((w, v))
        self._l = []
        for x, vs in sorted(got.items(), key=lambda e: e[0].number):
            if x.type == 11:
                m = pool.cls(x.message_type.full_name)()
                for w, v in vs: merge(m, v)
                self._l.append((x, m))
            else:
                self._l.append((x, scalar(x, vs[-1][1])))
        self.Extensions = dict(self._l)
    def ListFields(self): return list(self._l)
    def HasExtension(self, x): return x in self.Extensions
    def __str__(self): return "".join("[%s]: %s\n" % (x.full_name, v) for x, v in self._l)

def scalar(f, v):
    t = f.type
    if t in FLOATS: return struct.unpack(FLOATS[t][0], v)[0]
    if t in FIXED: return struct.unpack(FIXED[t], v)[0]
    if t == 8: return bool(v)
    if t == 9: return v.decode()
    if t == 12: return bytes(v)
    if t in (17, 18): return (v >> 1) ^ -(v & 1)
    if t in (3, 5, 14): return signed(v, 64)
    return v
def merge(m, b):
    for n, w, v in wire(b):
        f = m.DESCRIPTOR.fields_by_number.get(n)
        if f is None: continue
        if f.type == 11:
            x = f.message_type._pool.cls(f.message_type.full_name)()
            if f.label != 3 and f.name in m._v: x = m._v[f.name]
            merge(x, v)
        else:
            x = None
        if f.label == 3:
            l = m._v.setdefault(f.name, Repeated())
            if f.type == 11: l.append(x)
            elif w == 2 and f.type not in (9, 12):     # packed
                i = 0
                while i < len(v):
                    if f.type in (1, 6, 16): y = v[i:i + 8]; i += 8
                    elif f.type in (2, 7, 15): y = v[i:i + 4]; i += 4
                    else: y, i = varint(v, i)
                    l.append(scalar(f, y))
            else: l.append(scalar(f, v))
        else:
            m._set(f, x if f.type == 11 else scalar(f, v))

class Repeated(list):
    __hash__ = None
class Map(dict):
    __hash__ = None
EMPTY_LIST, EMPTY_MAP = Repeated(), Map()

class Message:
    DESCRIPTOR = None
    __slots__ = ("_v", "__weakref__")
    def __init__(self, **k):
        object.__setattr__(self, "_v", {})
        for a, b in k.items(): self._set(self.DESCRIPTOR.fields_by_name[a], b)
    __hash__ = None
    def _set(self, f, v):
        if f.containing_oneof is not None:
            for g in f.containing_oneof.fields: self._v.pop(g.name, None)
        self._v[f.name] = v
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None: raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, n))
        v = self._v.get(n)
        if v is not None: return v
        if f.label == 3: return self._v.setdefault(n, Map() if f.is_map else Repeated())
        if f.message_type is not None: return f.message_type._pool.cls(f.message_type.full_name)()
        return f.default_value
    def __setattr__(self, n, v):
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None or f.label == 3 or f.message_type is not None: raise AttributeError('Assignment not allowed to field "%s" in protocol message object.' % n)
        self._set(f, v)
    def HasField(self, n):
        o = self.DESCRIPTOR.oneofs_by_name.get(n)
        if o is not None: return any(f.name in self._v for f in o.fields)
        f = self.DESCRIPTOR.fields_by_name.get(n)
        if f is None or not f.has_presence: raise ValueError('Protocol message %s has no field "%s" with presence' % (self.DESCRIPTOR.full_name, n))
        return n in self._v
    def WhichOneof(self, n):
        for f in self.DESCRIPTOR.oneofs_by_name[n].fields:
            if f.name in self._v: return f.name
        return None
    def ListFields(self):
        out = []
        for f in sorted(self.DESCRIPTOR.fields, key=lambda f: f.number):
            v = self._v.get(f.name)
            if v is None or not f.has_presence and (not v): continue
            out.append((f, v))
        return out
    def __eq__(self, o): return isinstance(o, Message) and o.DESCRIPTOR is self.DESCRIPTOR and self.ListFields() == o.ListFields()
    def __str__(self):
        out = []
        for f, v in self.ListFields():
            for x in (sorted(v.items(), key=repr) if isinstance(v, dict) else v if isinstance(v, list) else [v]):
                out.append("%s { %s}" % (f.name, x) if isinstance(x, Message) else "%s: %r" % (f.name, x) if not isinstance(x, tuple) else "%s { key: %r value: %s }" % (f.name, x[0], x[1]))
        return "".join(x + "\n" for x in out)
    __repr__ = __str__
    def CopyFrom(self, o):
        self._v.clear()
        self._v.update(o._v)
    def MergeFrom(self, o):
        for f, v in o.ListFields():
            if f.is_map: getattr(self, f.name).update(v)
            elif f.label == 3: getattr(self, f.name).extend(v)
            else: self._set(f, v)
    def Clear(self): self._v.clear()
    def ClearField(self, n): self._v.pop(n, None)
    def IsInitialized(self): return True
    def SerializeToString(self, **k): return str(self).encode()     # not the wire format, but as good to tell messages apart
    SerializePartialToString = SerializeToString
    def ByteSize(self): return len(self.SerializeToString())
    def __bool__(self): return True
    def __deepcopy__(self, memo=None):
        m = type(self)()
        for f, v in self.ListFields():
            c = lambda x: x.__deepcopy__() if isinstance(x, Message) else x
            m._v[f.name] = Map((k, c(x)) for k, x in v.items()) if isinstance(v, dict) else Repeated(map(c, v)) if isinstance(v, list) else c(v)
        return m
    __copy__ = __deepcopy__
