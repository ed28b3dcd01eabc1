"""Random proto files with validation rules: as text, one field per line, so
that a counterexample can be cut down line by line."""
import random

INT = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"]
WRAP = {"DoubleValue": "double", "FloatValue": "float", "Int32Value": "int32", "Int64Value": "int64", "UInt32Value": "uint32", "UInt64Value": "uint64",
        "BoolValue": "bool", "StringValue": "string", "BytesValue": "bytes"}

FAV = []   # string rules the current program prefers

SIGNED32, SIGNED64 = ("int32", "sint32", "sfixed32"), ("int64", "sint64", "sfixed64")

def rare(r, t):
    """Consistent rules at the ends of what their types hold, empty ones and odd texts."""
    if t in INT:
        lo, hi = (-1 << 31, (1 << 31) - 1) if t in SIGNED32 else (-1 << 63, (1 << 63) - 1) if t in SIGNED64 else (0, (1 << int(t[-2:])) - 1)
        return r.choice(["gte: %d lte: %d" % (lo, hi), "gt: %d lt: %d" % (lo, hi), "const: %d" % r.choice([lo, hi]), "in: [%d, %d, %d]" % (hi, lo, lo), "not_in: [%d, %d]" % (hi, hi), "lt: %d gt: %d" % (lo + 1, hi - 1),
                         "gte: %d" % hi, "lte: %d ignore_empty: true" % lo, "ignore_empty: true", "gt: %d lte: %d" % (hi - 1, hi)])
    if t in ("float", "double"):
        return r.choice(["lt: inf", "gt: -inf", "gte: -inf lte: inf", "not_in: [nan, inf]", "in: [-0.0, 0]", "lt: 1e-40", "gt: 1e30", "gt: -1e-9 lt: 1e-9", "const: 0"])
    if t == "string":
        return r.choice(["max_len: 0", "min_len: 0 max_len: 0", "len: 0", "len: 4 len_bytes: 4", "max_len: 9223372036854775807 prefix: \"a\"", "min_len: 1 max_len: 18446744073709551615 suffix: \"a\"", "max_bytes: 18446744073709551615 prefix: \"ab\"", "max_bytes: 4294967296", "min_len: 3 max_bytes: 2", "max_len: 3 max_bytes: 3",
                         "const: \"\"", "in: [\"\", \"a\", \"a\"]", "pattern: \"\"", "strict: false", "ignore_empty: true", "in: [\"`\", \"\\\"\", \"\\\\\", \"\\n\\t\\001\", \"%s\", \"$$ {{.}}\"]",
                         "const: \"\u00e9\u4e16\U0001f600 */ // \"", "prefix: \"\\\"\" suffix: \"\\\\\" contains: \"%d\" not_contains: \"'\"", "pattern: \"(?i)^[\\\\p{L}`\\\"]+\\\\d{1,3}$\"",
                         "max_len: 2 prefix: \"\u4e16\u4e16\"", "max_bytes: 6 suffix: \"\u4e16\u4e16\"", "max_len: 3 contains: \"abc\""])
    if t == "bytes":
        return r.choice(["max_len: 0", "len: 0", "min_len: 0 max_len: 9223372036854775807 prefix: \"a\"", "max_len: 18446744073709551615 contains: \"\\001\"", "suffix: \"\\000\\017\"", "in: [\"\", \"\\377\\000\"]", "const: \"\"", "prefix: \"\\377`\\\"\"", "pattern: \"\\\\x00\"", "max_len: 2 suffix: \"\\377\\377\"",
                         "not_in: [\"a\", \"a\"]", "ignore_empty: true"])
    if t == "enum":
        return r.choice(["const: -1", "in: [-7, 0, 2147483647, 0]", "not_in: [-2147483648]", "defined_only: false", "defined_only: true in: [1, 1]"])
    if t == "any":
        return r.choice(["in: [\"\"]", "required: true not_in: [\"a\", \"a\"]", "required: false"])
    if t == "duration":
        return r.choice(["gt: {seconds: 9} lt: {seconds: -9}", "gte: {seconds: -3 nanos: -5}", "in: [{}, {}, {nanos: -999999999}]", "lt: {seconds: 9223372036}", "gte: {seconds: -9223372036}", "const: {}", "lte: {}", "gt: {} lte: {nanos: 1}",
                         "gt: {seconds: 9300000000} lt: {seconds: 10000000000}", "gte: {seconds: -315576000000} lte: {seconds: -9300000001}", "lte: {seconds: 315576000000} gt: {seconds: 9223372037}"])
    if t == "timestamp":
        return r.choice(["gt: {seconds: -62135596800}", "lt: {seconds: 253402300799 nanos: 999999999}", "const: {}", "gt: {seconds: 9} lt: {seconds: -9}", "lt_now: true within: {nanos: 1}",
                         "within: {seconds: 9223372036}", "gte: {nanos: 999999999} lt: {seconds: 1}",
                         "gt: {seconds: 100} lt: {seconds: 18446744173 nanos: 709551616}", "gte: {seconds: -62135596800} lte: {seconds: 253402300799}", "gt: {seconds: 200000000000} lte: {seconds: 200000000001}"])
    return ""

def good_scalar(r, t):
    """A consistent rule set for scalar type t, as text-format fields."""
    if r.random() < .06:
        return rare(r, t)
    if t == "string" and FAV and r.random() < .35:
        return r.choice(FAV)
    if t in INT or t in ("float", "double"):
        a = r.randrange(0, 50)
        b = a + r.randrange(1, 50)
        f = ".5" if t in ("float", "double") and r.random() < .5 else ""
        neg = "-" if t in ("int32", "int64", "sint32", "sint64", "sfixed32", "sfixed64", "float", "double") and r.random() < .3 and a else ""
        if t[-2:] == "64" and r.random() < .1:
            # next to each other, where floating point numbers are not
            h = r.choice([1 << 53, 1 << 60, (1 << 63) - 9]) + r.randrange(0, 4)
            return r.choice(["gt: %d lte: %d", "gte: %d lt: %d", "gt: %d lt: %d", "in: [%d, %d]"]) % (h, h + 1)
        c = ["const: %s%d%s" % (neg, a, f), "gt: %s%d%s" % (neg, a, f), "gte: %d%s lt: %d%s" % (a, f, b, f), "gt: %d%s lte: %d%s" % (b, f, a, f), "lt: %d" % (b,),
             "in: [%d%s, %d]" % (a, f, b), "not_in: [%d, %d%s]" % (a, b, f), "lte: %d ignore_empty: true" % b, "gt: %d not_in: [%d]" % (a, b), ""]
        return r.choice(c)
    if t == "bool":
        return r.choice(["const: true", "const: false", ""])
    if t == "string":
        n = r.randrange(1, 9)
        return r.choice(['const: "k"', "min_len: %d" % n, "min_len: %d max_len: %d" % (n, n + r.randrange(0, 4)), "len: %d" % n, "len_bytes: %d" % n,
                         "min_bytes: %d max_bytes: %d" % (n, n + 3), 'pattern: "^[a-z]{%d}$"' % n, 'prefix: "p%d"' % n, 'suffix: "s" contains: "q"', 'not_contains: "zz"',
                         'in: ["a", "b%d"]' % n, 'not_in: ["x"]', "email: true", "hostname: true", "ip: true", "ipv4: true", "ipv6: true", "uri: true", "uri_ref: true",
                         "address: true", "uuid: true", "well_known_regex: HTTP_HEADER_NAME", "well_known_regex: HTTP_HEADER_VALUE strict: false",
                         'pattern: "a|b" min_len: 1 ignore_empty: true', 'max_len: %d prefix: "\u00e9"' % n, ""])
    if t == "bytes":
        n = r.randrange(1, 9)
        return r.choice(["const: \"k\\001\"", "min_len: %d" % n, "min_len: %d max_len: %d" % (n, n), "pattern: \"^[a-z]*$\"", "prefix: \"\\x99\"", "suffix: \"e\" contains: \"b\"",
                         "in: [\"a\", \"bb\"]", "not_in: [\"x\"]", "ip: true", "ipv4: true", "ipv6: true", "len: %d" % n])
    if t == "enum":
        return r.choice(["defined_only: true", "in: [0, 1]", "not_in: [1]", "const: 1", "defined_only: true in: [1]"])
    if t == "any":
        return r.choice(["required: true", "in: [\"type.googleapis.com/google.protobuf.Duration\"]", "not_in: [\"x/y\"]"])
    if t == "duration":
        a = r.randrange(0, 30)
        if r.random() < .2:
            n = r.randrange(0, 999999999)
            return r.choice(["gt: {seconds: %d nanos: %d} lt: {seconds: %d nanos: %d}", "gte: {seconds: %d nanos: %d} lt: {seconds: %d nanos: %d}"]) % (a, n, a, n + 1)
        return r.choice(["required: true", "gt: {seconds: %d}" % a, "gte: {seconds: %d} lt: {seconds: %d nanos: 5}" % (a, a + 4), "const: {seconds: %d}" % a,
                         "in: [{seconds: %d}, {nanos: 7}]" % a, "not_in: [{seconds: %d}]" % a, "lte: {seconds: %d}" % a])
    if t == "timestamp":
        a = r.randrange(0, 3000)
        if r.random() < .2:
            n = r.randrange(0, 999999999)
            return r.choice(["gt: {seconds: %d nanos: %d} lt: {seconds: %d nanos: %d}", "gt: {seconds: %d nanos: %d} lte: {seconds: %d nanos: %d}"]) % (a, n, a, n + 1)
        return r.choice(["required: true", "lt_now: true", "gt_now: true within: {seconds: %d}" % (a + 1), "within: {seconds: %d}" % (a + 1), "gt: {seconds: %d}" % a,
                         "gte: {seconds: %d} lt: {seconds: %d}" % (a, a + 9), "const: {seconds: %d}" % a, "lte: {seconds: %d nanos: 3}" % a])
    raise KeyError(t)

# each: field declaration without the name, rule text (None: no such field kind)
BAD = [
    ("int32", "int32 = {lt: 5 lte: 6}"), ("int32", "int32 = {gt: 5 gte: 6}"), ("int64", "int64 = {gt: 5 lt: 5}"), ("uint32", "uint32 = {gte: 5 lte: 5}"),
    ("uint64", "uint64 = {const: 1 in: [1]}"), ("sint32", "sint32 = {in: [1] not_in: [2]}"), ("float", "float = {const: 1 lt: 2}"), ("double", "double = {in: [1] gt: 0}"),
    ("fixed32", "fixed32 = {gt: 7 lte: 7}"), ("sfixed64", "sfixed64 = {gte: 7 lt: 7}"), ("fixed64", "fixed64 = {in: [4] lte: 7}"), ("sfixed32", "sfixed32 = {const: 4 gte: 4}"),
    ("sint64", "sint64 = {in: [1] not_in: [1]}"),
    ("string", "string = {min_len: 5 max_len: 4}"), ("string", "string = {min_bytes: 5 max_bytes: 4}"), ("string", "string = {len: 3 min_len: 3}"), ("string", "string = {len: 3 max_len: 3}"),
    ("string", "string = {len_bytes: 3 max_bytes: 4}"), ("string", "string = {in: [\"a\"] not_in: [\"b\"]}"), ("string", "string = {pattern: \"(\"}"), ("string", "string = {pattern: \"a\" in: [\"a\"]}"),
    ("string", "string = {well_known_regex: HTTP_HEADER_NAME pattern: \"a\"}"), ("string", "string = {max_len: 2 prefix: \"abc\"}"), ("string", "string = {max_len: 2 suffix: \"abc\"}"),
    ("string", "string = {max_len: 2 contains: \"abc\"}"), ("string", "string = {max_bytes: 2 prefix: \"abc\"}"), ("string", "string = {max_bytes: 2 contains: \"\\u00e9\\u00e9\"}"),
    ("string", "string = {max_len: 5 max_bytes: 4}"),
    ("bytes", "bytes = {min_len: 5 max_len: 4}"), ("bytes", "bytes = {in: [\"a\"] not_in: [\"b\"]}"), ("bytes", "bytes = {pattern: \"[\"}"), ("bytes", "bytes = {max_len: 1 prefix: \"ab\"}"),
    ("bytes", "bytes = {pattern: \"a\" in: [\"a\"]}"),
    ("ENUM", "enum = {in: [1] not_in: [0]}"), ("ENUM", "enum = {defined_only: true in: [77]}"),
    ("google.protobuf.Any", "any = {in: [\"a\"] not_in: [\"b\"]}"), ("google.protobuf.Any", "message = {required: true}"),
    ("google.protobuf.Duration", "duration = {gt: {seconds: 1} lt: {seconds: 1}}"), ("google.protobuf.Duration", "duration = {in: [{seconds: 1}] not_in: [{seconds: 2}]}"),
    ("google.protobuf.Duration", "duration = {lt: {seconds: 400000000000}}"), ("google.protobuf.Duration", "message = {skip: true}"),
    ("google.protobuf.Timestamp", "timestamp = {lt_now: true gt_now: true}"), ("google.protobuf.Timestamp", "timestamp = {lt_now: true lt: {seconds: 4}}"),
    ("google.protobuf.Timestamp", "timestamp = {within: {seconds: 1} gt: {seconds: 4}}"), ("google.protobuf.Timestamp", "timestamp = {within: {}}"),
    ("google.protobuf.Timestamp", "timestamp = {within: {seconds: -3}}"), ("google.protobuf.Timestamp", "timestamp = {gt: {seconds: 9} lt: {seconds: 9}}"),
    ("google.protobuf.Timestamp", "timestamp = {const: {nanos: -5}}"),
    ("repeated int32", "repeated = {min_items: 4 max_items: 3}"), ("repeated int32", "repeated = {items: {int32: {gt: 5 lt: 5}}}"), ("repeated string", "repeated = {items: {int32: {gt: 5}}}"),
    ("repeated string", "string = {min_len: 1}"), ("repeated google.protobuf.Any", "repeated = {unique: true}"), ("int32", "repeated = {min_items: 1}"),
    ("repeated string", "repeated = {items: {string: {pattern: \"*\"}}}"),
    ("map<string, int32>", "map = {min_pairs: 4 max_pairs: 3}"), ("map<string, int32>", "map = {keys: {int32: {gt: 5}}}"), ("map<string, int32>", "map = {values: {int32: {in: [1] not_in: [2]}}}"),
    ("map<string, int32>", "map = {keys: {string: {len: 2 max_len: 3}}}"), ("map<string, int32>", "map = {no_sparse: true}"), ("map<string, string>", "map = {values: {string: {pattern: \"(\"}}}"),
    ("int32", "map = {min_pairs: 1}"), ("int32", "string = {min_len: 1}"), ("int32", "int64 = {gt: 1}"), ("string", "bytes = {min_len: 1}"), ("bool", "int32 = {const: 1}"),
    ("int32", "sint32 = {gt: 1}"), ("ENUM", "int32 = {gt: 1}"), ("string", "message = {skip: true}"), ("int32", "enum = {defined_only: true in: [1]}"),
    ("google.protobuf.StringValue", "int32 = {gt: 1}"), ("google.protobuf.Int32Value", "int32 = {gt: 1 lt: 1}"), ("google.protobuf.StringValue", "string = {pattern: \"(\"}"),
    ("MSG", "int32 = {gt: 1}"), ("MSG", "string = {min_len: 1}"),
    ("google.protobuf.Timestamp", "message = {required: true}"), ("google.protobuf.Duration", "message = {required: true}"), ("google.protobuf.Timestamp", "message = {skip: true}"),
    ("google.protobuf.StringValue", "string = {min_len: 1}, (validate.rules).message.skip = true"), ("google.protobuf.DoubleValue", "double = {gt: 1}, (validate.rules).message.skip = true"),
    ("bytes", "bytes = {len: 3 min_len: 5}"), ("bytes", "bytes = {len: 3 max_len: 3}"), ("bytes", "bytes = {len: 0 min_len: 0}"), ("google.protobuf.BytesValue", "bytes = {len: 4 max_len: 2}"),
    ("repeated bytes", "repeated = {items: {bytes: {len: 3 min_len: 5}}}"), ("repeated google.protobuf.Any", "repeated = {items: {any: {in: [\"a\"] not_in: [\"b\"]}}}"),
    ("repeated google.protobuf.Timestamp", "repeated = {items: {timestamp: {lt_now: true gt_now: true}}}"), ("map<string, google.protobuf.Timestamp>", "map = {values: {timestamp: {within: {}}}}"),
    ("map<string, google.protobuf.Duration>", "map = {values: {duration: {gt: {seconds: 3} lt: {seconds: 3}}}}"), ("repeated ENUM", "repeated = {items: {enum: {in: [1] not_in: [0]}}}"),
    ("repeated ENUM", "repeated = {items: {enum: {defined_only: true in: [77]}}}"), ("map<string, ENUM>", "map = {values: {enum: {in: [0] not_in: [0]}}}"),
    ("repeated MSG", "repeated = {unique: true}"), ("repeated google.protobuf.StringValue", "repeated = {unique: true}"), ("map<string, string>", "repeated = {min_items: 1}"), ("map<string, MSG>", "message = {required: true}"),
    ("repeated MSG", "message = {skip: true}"), ("repeated string", "map = {min_pairs: 1}"), ("map<int32, ENUM>", "map = {no_sparse: true}"), ("map<string, MSG>", "map = {min_pairs: 3 max_pairs: 2 no_sparse: true}"),
    ("google.protobuf.Duration", "duration = {in: [{seconds: 1}, {nanos: 1000000000}]}"), ("google.protobuf.Duration", "duration = {not_in: [{seconds: 1 nanos: -1}]}"),
    ("google.protobuf.Duration", "duration = {gt: {seconds: 9300000000} lte: {seconds: 9300000000}}"), ("google.protobuf.Timestamp", "timestamp = {lte: {seconds: 200000000000} gte: {seconds: 200000000000}}"),
    ("google.protobuf.Timestamp", "timestamp = {lt: {seconds: 253402300800}}"), ("google.protobuf.Timestamp", "timestamp = {within: {nanos: 1000000000}}"),
    ("map<string, int32>", "map = {keys: {message: {required: true}}}"), ("map<string, string>", "map = {values: {message: {skip: true}}}"), ("repeated string", "repeated = {items: {message: {skip: true}}}"),
    ("bytes", "bytes = {max_len: 1 suffix: \"ab\"}"), ("bytes", "bytes = {max_len: 1 contains: \"ab\"}"), ("string", "string = {max_bytes: 2 suffix: \"abc\"}"),
    ("repeated int32", "repeated = {min_items: 1 max_items: 0}"), ("map<int32, int32>", "map = {min_pairs: 1 max_pairs: 0}"), ("repeated MSG", "repeated = {min_items: 2 max_items: 1 items: {message: {required: true}}}"),
    ("repeated int32", "repeated = {items: {repeated: {min_items: 1}}}"), ("map<string, int32>", "map = {values: {map: {min_pairs: 1}}}"),
]

NUMERIC = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"]
MAPX = ["", "", "min_pairs: 1 ", "max_pairs: 9 ", "ignore_empty: true ", "min_pairs: 2 max_pairs: 2 ", "ignore_empty: true min_pairs: 1 "]
KEYS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "string"]

def bad_numbers(r, lit, ins=True):
    """Rules that contradict each other on numbers, durations or timestamps."""
    a, b = r.sample(range(1, 90), 2)
    one = lambda k: "%s: %s" % (k, lit(a))
    return r.choice(
        [["lt: " + lit(a), "lte: " + lit(b)], ["gt: " + lit(a), "gte: " + lit(b)]]
        + [[one(x), one(y)] for x in ("lt", "lte") for y in ("gt", "gte")]
        + [["const: " + lit(a), "%s: %s" % (x, lit(r.choice([a, b])))] for x in ("lt", "lte", "gt", "gte")]
        + ([["const: " + lit(a), "%s: [%s]" % (x, lit(r.choice([a, b])))] for x in ("in", "not_in")]
           + [["in: [%s]" % lit(a), "%s: %s" % (x, lit(b))] for x in ("lt", "lte", "gt", "gte")]
           + [["in: [%s, %s]" % (lit(a), lit(b)), "not_in: [%s]" % lit(r.choice([a, b]))]] if ins else []))

def bad_text(r, kind):
    a = r.randrange(2, 40)
    long = "x" * (a + 1)
    out = [["min_len: %d" % (a + r.randrange(1, 3)), "max_len: %d" % a], ["in: [\"q\"]", "not_in: [\"%s\"]" % r.choice("qr")],
           ["pattern: \"%s\"" % r.choice(["(", "[", "*", "a{2,1}", "(?P<n", "\\\\"])], ["pattern: \"a\"", "in: [\"a\"]"]]
    out += [["max_len: %d" % a, "%s: \"%s\"" % (x, long)] for x in ("prefix", "suffix", "contains")]
    if kind == "string":
        wide = "\\u00e9" * (a // 2 + 1)
        out += [["max_bytes: %d" % a, "%s: \"%s\"" % (x, t)] for x in ("prefix", "suffix", "contains") for t in (long, wide)]
        out += [["len: %d" % a, "%s: %d" % (x, a)] for x in ("min_len", "max_len")] + [["len_bytes: %d" % a, "%s: %d" % (x, a)] for x in ("min_bytes", "max_bytes")]
        out += [["min_bytes: %d" % (a + 1), "max_bytes: %d" % a], ["max_len: %d" % (a + r.randrange(1, 4)), "max_bytes: %d" % a]]
        out += [["well_known_regex: %s" % r.choice(["HTTP_HEADER_NAME", "HTTP_HEADER_VALUE"]), "pattern: \"a\""]]
    else:
        out += [["len: %d" % a, "%s: %d" % (x, r.choice([a, a + 1, a - 1]))] for x in ("min_len", "max_len")]
    return r.choice(out)

SINGLE = {"any": "google.protobuf.Any", "duration": "google.protobuf.Duration", "timestamp": "google.protobuf.Timestamp", "enum": "ENUM", "message": "MSG"}

def ill_typed(r):
    """Rules of one kind, consistent in themselves, for a field of another."""
    kinds = {t: t for t in NUMERIC + ["string", "bytes", "bool"]}
    kinds.update({t: k for k, t in SINGLE.items()})
    kinds.update({"google.protobuf." + w: k for w, k in WRAP.items()})
    if r.random() < .5:
        t = r.choice(sorted(kinds))
    else:
        t = r.choice(["int32", "string", "MSG", "ENUM"] + ["google.protobuf." + x for x in ("Any", "Duration", "Timestamp", "StringValue")])
    wrong = [k for k in sorted(set(kinds.values())) + ["any", "duration", "timestamp", "message"] if k != kinds[t] and not (k == "message" and t[16:] in WRAP)]
    k = r.choice(wrong)
    # (message rules on the elements of a list or map only ask for a message)
    c = r.random() * (.5 if k == "message" and t.startswith("google.") else 1)
    body = r.choice(["required: true", "skip: true"]) if k == "message" else good_scalar(r, k)
    rule, inner = "%s = {%s}" % (k, body), "%s: {%s}" % (k, body)
    if c < .5:
        return t, rule
    if c < .65:
        return "repeated " + t, "repeated = {items: {%s}}" % inner
    if c < .8:
        return "map<%s, %s>" % (r.choice(KEYS), t), "map = {%svalues: {%s}}" % (r.choice(MAPX), inner)
    if c < .9:
        kt = r.choice(KEYS)
        k = r.choice([x for x in wrong if x != kt] or ["any"])
        body = r.choice(["required: true", "skip: true"]) if k == "message" else good_scalar(r, k)
        return "map<%s, %s>" % (kt, t), "map = {%skeys: {%s: {%s}}}" % (r.choice(MAPX), k, body)
    # the right rules, but for one value where there are several, or the other way round
    own = "message = {required: true}" if kinds[t] == "message" else "%s = {%s}" % (kinds[t], good_scalar(r, kinds[t]))
    return r.choice([("repeated " + t, own), ("map<string, %s>" % t, own), (t, "repeated = {min_items: 1}"), (t, "map = {max_pairs: 3}"),
                     ("map<int32, %s>" % t, "repeated = {max_items: 3}"), ("repeated " + t, "map = {min_pairs: 1}")])

def bad_rule(r):
    """A field type and a contradictory or ill-typed rule for it: one of the
    table, or one made up; sometimes as the rule of a list's items or a map's
    keys or values."""
    c = r.random()
    if c < .4:
        return r.choice(BAD)
    if c < .55:
        return ill_typed(r)
    k = r.random()
    secs = lambda n: "{seconds: %d nanos: %d}" % (n, n)
    if k < .45:
        t = n = r.choice(NUMERIC)
        base = r.choice([0] + ([-200] if t[0] in "isdf" and not t.startswith("fixed") else []) + ([1 << 40] if "64" in t or t == "double" else [100000]))
        parts = bad_numbers(r, lambda v: str(base + v) + (".5" if t in ("float", "double") and base else ""))
    elif k < .7:
        t = n = r.choice(["string", "string", "bytes"])
        parts = bad_text(r, t)
    elif k < .8:
        t, n = "google.protobuf.Duration", "duration"
        parts = bad_numbers(r, secs) if r.random() < .8 else [r.choice(["lt", "gte", "const"]) + ": {nanos: 1000000000}"]
    elif k < .9:
        t, n = "google.protobuf.Timestamp", "timestamp"
        parts = bad_numbers(r, secs, False) if r.random() < .6 else r.choice(
            [["lt_now: true", "gt_now: true"], ["within: {nanos: -1}"], ["gt: {seconds: -99999999999}"]]
            + [[w, "%s: {seconds: 9}" % x] for w in ("lt_now: true", "gt_now: true", "within: {seconds: 5}") for x in ("lt", "lte", "gt", "gte")])
    else:
        t = r.choice(NUMERIC + ["string", "bytes", "bool"])
        n = r.choice([x for x in NUMERIC + ["string", "bytes"] if x != t])
        parts = ["const: \"a\"" if n in ("string", "bytes") else "const: 1"]
    r.shuffle(parts)
    rule = "%s = {%s}" % (n, " ".join(parts))
    inner = "%s: {%s}" % (n, " ".join(parts))
    w = r.random()
    if w < .12:
        extra = r.choice(["", "", "min_items: 1 ", "max_items: 9 ", "ignore_empty: true ", "min_items: 2 max_items: 2 ", "ignore_empty: true max_items: 3 "] + (["unique: true "] if "." not in t else []))
        return "repeated " + t, "repeated = {%sitems: {%s}}" % (extra, inner)
    if w < .24:
        k = r.choice(KEYS)
        keys = " keys: {%s: {%s}}" % (k, "min_len: 1" if k == "string" else "gt: 1") if r.random() < .3 else ""
        return "map<%s, %s>" % (k, t), "map = {%svalues: {%s}%s}" % (r.choice(MAPX), inner, keys)
    if w < .36 and t in KEYS:
        return "map<%s, %s>" % (t, r.choice(["string", "int32", "bool"])), "map = {%skeys: {%s}}" % (r.choice(MAPX), inner)
    if w < .46 and t in ("int32", "int64", "uint32", "uint64", "float", "double", "string", "bytes"):
        return {"int32": "google.protobuf.Int32Value", "int64": "google.protobuf.Int64Value", "uint32": "google.protobuf.UInt32Value", "uint64": "google.protobuf.UInt64Value", "float": "google.protobuf.FloatValue",
                "double": "google.protobuf.DoubleValue", "string": "google.protobuf.StringValue", "bytes": "google.protobuf.BytesValue"}[t], rule
    return t, rule

BURST_HEAD = ['syntax = "proto3";', "package %s;", 'option go_package = "sim.example/%s;%s";', 'import "validate/validate.proto";'] + ['import "google/protobuf/%s.proto";' % x for x in ("any", "duration", "timestamp", "wrappers")]
def burst(r, n):
    """n small files with one contradictory or ill-typed rule each; path -> (lines, what)."""
    out = {}
    for i in range(n):
        t, rule = bad_rule(r)
        t = t.replace("ENUM", "E").replace("MSG", "M")
        f = ["%s bad_field = %d [(validate.rules).%s];" % (t, r.choice([1, 7]), rule)]
        if not t.startswith(("repeated", "map")) and r.random() < .2:
            f = ["oneof c {"] + (["option (validate.required) = true;"] if r.random() < .5 else []) + f + ["int32 spare = 3;", "}"]
        f = ["message B {"] + ["int32 f%d = %d;" % (k, k) for k in range(20, 20 + r.choice([0, 0, 1, 3]))] + f + ["}"]
        if r.random() < .3:
            f = ["message Outer {"] + f + (["B b = 1;"] if r.random() < .5 else []) + ["}"]
        p = "b%d" % i
        out["burst/%s.proto" % p] = ([x.replace("%s", p) for x in BURST_HEAD] + ["enum E {", "E_ZERO = 0;", "E_ONE = 1;", "}", "message M {", "int32 v = 1;", "}"] + f, "%s %s" % (t, rule))
    return out

class Prog:
    def __init__(self, r, nfiles=None, small=False):
        self.r = r
        n = nfiles or r.choice([1, 2, 2, 3, 3, 4, 5, 6] if r.random() < .96 else [9, 14])
        self.pkgs = {}
        self.files = []      # dicts, in topological order
        dirs = ["", "d1/", "d2/", "d1/sub/"]
        names = ["alpha", "beta", "alpha_b", "gamma", "Delta2", "x-y", "a.b"]
        used = set()
        pkgs = ["sim.one", "sim.two", "top", "sim.one.deep"]
        if r.random() < .4:
            names = r.sample(names, 2)      # many files of equal name
        if r.random() < .4:
            pkgs = r.sample(pkgs, r.choice([1, 2]))
        self.godirs = r.random() < .5       # one Go package per directory
        wk = ["uuid: true", "email: true", "hostname: true", "ip: true", "uri: true", "address: true", "uri_ref: true"]
        # a file that hands validate.proto on to those that import it
        hub = None
        if r.random() < .1:
            hub = {"path": "d1/rules_hub.proto", "pkg": "top", "imports": [], "opts": [], "msgs": [], "enums": [], "validate": True, "two": False, "hub": True, "service": None}
            hub["opts"].append('option go_package = "sim.example/hub;hub";')
            self.files.append(hub)
            used.add(hub["path"])
        for i in range(n):
            # rules tend to differ between files
            FAV[:] = r.sample(wk, 2) if r.random() < .6 else []
            for _ in range(50):
                p = r.choice(dirs) + r.choice(names) + ".proto"
                if p.lower() not in used:
                    break
            else:
                break       # no path left
            used.add(p.lower())
            pkg = r.choice(pkgs)
            f = {"path": p, "pkg": pkg, "imports": [], "opts": [], "msgs": [], "enums": [], "validate": r.random() < .9, "two": r.random() < .15}
            self.files.append(f)
            if hub and f["validate"] and r.random() < .6:
                f["via"] = hub["path"]
            self.file(f, i, small)
        FAV[:] = []

    def fresh(self, f, base):
        s = self.pkgs.setdefault(f["pkg"], set())
        for b in [base] + [base + str(k) for k in range(2, 99)]:
            if b.lower() not in s:
                s.add(b.lower())
                return b

    def file(self, f, i, small):
        r = self.r
        d = f["path"].rsplit("/", 1)[0] if "/" in f["path"] and self.godirs else ""
        gp = "sim.example/" + f["pkg"].replace(".", "/") + ("/" + d if d else "") + ";" + f["pkg"].replace(".", "_")
        f["opts"].append('option go_package = "%s";' % gp)
        if r.random() < .4:
            f["opts"].append('option java_package = "com.%s.f%d";' % (f["pkg"], i))
        if r.random() < .08:
            f["opts"].append("option deprecated = true;")
        if r.random() < .3:
            f["opts"].append("option java_multiple_files = true;")
        elif r.random() < .3:
            f["opts"].append('option java_outer_classname = "Outer%d";' % i)
        for g in self.files[:i]:
            if "hub" not in g and r.random() < .5 and r.random() < .9:
                f["imports"].append(g)
        # Java's outer class is named after the file and moves out of the way of types of its name
        stem = "".join(w[:1].upper() + w[1:] for w in f["path"].rsplit("/", 1)[-1][:-6].replace("-", "_").replace(".", "_").split("_"))
        own = lambda names: stem if r.random() < .1 else r.choice(names)
        for _ in range(r.choice([0, 1, 1])):
            e = self.fresh(f, own(["Color", "Mode"]))
            f["enums"].append({"name": e, "fq": "." + f["pkg"] + "." + e, "lines": ["%s_ZERO = 0;" % e.upper(), "%s_ONE = 1;" % e.upper()]})
            if r.random() < .15:
                f["enums"][-1]["lines"] += r.choice([["%s_LAST = 2147483647;", "%s_NEG = -1;"], ["option allow_alias = true;", "%s_UNO = 1;"], ["reserved 4, 6 to max;", "%s_OLD = 3 [deprecated = true];"]])
                f["enums"][-1]["lines"] = [x % e.upper() if "%" in x else x for x in f["enums"][-1]["lines"]]
        for _ in range(r.choice(([0, 1, 1, 2, 2, 3] if r.random() < .9 else [5, 8]) if not small else [1, 1, 2])):
            f["msgs"].append(self.msg(f, "." + f["pkg"], own(["Item", "Order", "Request", "Node_x", "HTTPRoute", "V2beta"]), 0))
        f["service"] = self.fresh(f, own(["Service", "Lookup"])) if f["msgs"] and r.random() < .2 else None

    def types(self, f, kind):
        out = []
        def walk(ms):
            for m in ms:
                out.append(m["fq"]) if kind == "msg" else out.extend(e["fq"] for e in m["enums"])
                walk(m["msgs"])
        for g in [f] + f["imports"]:
            # open enums only, where enums have to be open
            if kind == "enum" and g["two"] and not f["two"]:
                continue
            walk(g["msgs"])
            if kind == "enum":
                out.extend(e["fq"] for e in g["enums"])
        return out

    def msg(self, f, scope, base, depth):
        r = self.r
        name = self.fresh(f, base) if depth == 0 else base
        m = {"name": name, "fq": scope + "." + name, "opts": [], "fields": [], "msgs": [], "enums": [], "oneofs": []}
        if depth < 2:
            for b in r.sample(["Inner", "Item", "Detail", "TLSConfig"] + [stem for stem in ["Alpha", "Beta", "Gamma"] if r.random() < .1], r.choice([0, 0, 0, 1, 2])):
                m["msgs"].append(self.msg(f, m["fq"], b, depth + 1))
        if r.random() < .2:
            e = "Kind"
            m["enums"].append({"name": e, "fq": m["fq"] + "." + e, "lines": ["K_ZERO = 0;", "K_ONE = 1;"]})
        if f["validate"] and r.random() < .15:
            m["opts"].append("option (validate.%s) = true;" % r.choice(["disabled", "ignored"]))
        m["plain"] = not m["opts"]
        if r.random() < .06:
            m["opts"].append("option deprecated = true;")
        loc_m, loc_e = self.types(f, "msg") + [x["fq"] for x in m["msgs"]], self.types(f, "enum") + [e["fq"] for e in m["enums"]]
        if depth == 0:
            loc_m.append(m["fq"])
        for k in range(1, r.randrange(1, 8)):
            m["fields"].append(self.field(f, k, loc_m, loc_e))
        # names that mean something in one of the languages
        for x, nm in zip(m["fields"], r.sample(["const", "inline", "class", "self", "func", "i", "p", "IPv4URL", "a__b", "x2y", "_low", "m", "err", "hash_code"], 7)):
            if r.random() < .08:
                x["name"] = nm
        if r.random() < .1:
            m["extra"] = ["reserved 200, 210 to 220;", 'reserved "gone", "old_one";']
        if f["two"] and r.random() < .3:
            m.setdefault("extra", []).append("extensions 1000 to max;")
            if depth == 0:
                m["extensions"] = True
        if r.random() < .3:
            k0 = 50
            o = {"name": r.choice(["choice", "pick"]), "req": f["validate"] and r.random() < .5, "fields": []}
            for j in range(r.randrange(1, 4)):
                o["fields"].append(self.field(f, k0 + j, loc_m, loc_e, oneof=True))
            m["oneofs"].append(o)
            if r.random() < .3:
                m["oneofs"].append({"name": "other", "req": False, "fields": [self.field(f, 60, loc_m, loc_e, oneof=True)]})
        return m

    def field(self, f, k, msgs, enums, oneof=False):
        r = self.r
        name = r.choice(["name", "value", "some_id", "type", "x", "URL_path", "data"]) + "_%d" % k
        rule = None
        c = r.random()
        if c < .45:
            t = r.choice(INT + ["string"] * 7 + ["bytes", "bytes", "float", "double", "bool"])
            rule = "%s = {%s}" % (t, good_scalar(r, t))
        elif c < .53 and enums:
            t = r.choice(enums)
            rule = "enum = {%s}" % good_scalar(r, "enum")
        elif c < .63 and msgs:
            t = r.choice(msgs)
            rule = r.choice(["message = {required: true}", "message = {skip: true}", None, None])
        elif c < .70:
            w = r.choice(sorted(WRAP))
            t = "google.protobuf." + w
            rule = "%s = {%s}" % (WRAP[w], good_scalar(r, WRAP[w]))
            if r.random() < .4:
                rule += ", (validate.rules).message.required = true"
        elif c < .78:
            w = r.choice(["Any", "Duration", "Timestamp"])
            t = "google.protobuf." + w
            rule = "%s = {%s}" % (w.lower(), good_scalar(r, w.lower()))
        elif c < .9 and not oneof:
            e = r.choice(["string", "int32", "uint64", "bytes", "enum", "msg", "Duration", "double"])
            extra = r.choice(["", "min_items: 1", "min_items: 1 max_items: 4", "max_items: 3 ignore_empty: true"])
            if e in ("string", "int32", "uint64", "bytes", "double"):
                t = "repeated " + e
                items = good_scalar(r, e)
                rule = "repeated = {%s %s items: {%s: {%s}}}" % (extra, r.choice(["", "unique: true"]), e, items)
            elif e == "enum" and enums:
                t = "repeated " + r.choice(enums)
                rule = "repeated = {%s items: {enum: {%s}}}" % (extra, good_scalar(r, "enum"))
            elif e == "msg" and msgs:
                t = "repeated " + r.choice(msgs)
                rule = r.choice(["repeated = {%s}" % extra, "repeated = {%s items: {message: {required: true}}}" % extra, None])
            else:
                t = "repeated google.protobuf.Duration"
                rule = "repeated = {%s items: {duration: {%s}}}" % (extra, good_scalar(r, "duration"))
        elif not oneof:
            kt = r.choice(["string", "int32", "uint64", "sint32"])
            v = r.choice(["string", "int32", "msg", "enum", "bytes", "bool"])
            keys = "keys: {%s: {%s}}" % (kt, good_scalar(r, kt))
            extra = r.choice(["", "min_pairs: 1", "max_pairs: 5"])
            if v == "msg" and msgs:
                t = "map<%s, %s>" % (kt, r.choice(msgs))
                rule = "map = {%s %s %s}" % (extra, keys, r.choice(["", "no_sparse: true", "values: {message: {required: true}}"]))
            elif v == "enum" and enums:
                t = "map<%s, %s>" % (kt, r.choice(enums))
                rule = "map = {%s %s values: {enum: {%s}}}" % (extra, keys, good_scalar(r, "enum"))
            else:
                if v in ("msg", "enum"):
                    v = "int64"
                t = "map<%s, %s>" % (kt, v)
                rule = "map = {%s %s values: {%s: {%s}}}" % (extra, keys, v, good_scalar(r, v))
        else:
            t = "int32"
            rule = "int32 = {gt: 3}"
        if rule is not None and (not f["validate"] or r.random() < .1):
            rule = None
        opts = []
        if r.random() < .06:
            opts.append('json_name = "%s%d"' % (r.choice(["j", "other-name ", "\u00e9"]), k))
        if r.random() < .15 and t in ("int32", "uint64", "string", "bool", "double") and f["two"] and not oneof:
            opts.append("default = " + {"string": '"q\\"z"', "bool": "true"}.get(t, "7"))
        if r.random() < .15 and t in ("repeated int32", "repeated uint64", "repeated double"):
            opts.append("packed = " + r.choice(["true", "false"]))
        return {"t": t, "name": name, "n": k, "rule": rule, "dep": r.random() < .05, "req": r.random() < .2, "opt": r.random() < .08, "opts": opts}

    # --- text
    def text(self, f):
        L = ['syntax = "proto%d";' % (2 if f["two"] else 3), "package %s;" % f["pkg"]]
        L += f["opts"]
        if f["validate"]:
            L.append('import "%s";' % f["via"] if "via" in f else 'import %s"validate/validate.proto";' % ("public " if "hub" in f else ""))
        if "hub" in f:
            return L
        L += ['import "google/protobuf/%s.proto";' % x for x in ("any", "duration", "timestamp", "wrappers")]
        L += ['import "%s";' % g["path"] for g in f["imports"]]
        for e in f["enums"]:
            L += ["enum %s {" % e["name"]] + e["lines"] + ["}"]
        def fl(x, oneof=False):
            label = "" if oneof or x["t"].startswith(("repeated ", "map<")) else "optional " * x.get("opt", False) if not f["two"] else "required " if x["req"] else "optional "
            opts = ["deprecated = true"] * x["dep"] + x.get("opts", []) + ["(validate.rules).%s" % x["rule"]] * bool(x["rule"])
            return "%s%s %s = %d%s;" % (label, x["t"], x["name"], x["n"], " [%s]" % ", ".join(opts) if opts else "")
        def put(m):
            L.append("message %s {" % m["name"])
            L.extend(m["opts"])
            for e in m["enums"]:
                L.extend(["enum %s {" % e["name"]] + e["lines"] + ["}"])
            for x in m["msgs"]:
                put(x)
            L.extend(m.get("extra", []))
            for x in m["fields"]:
                L.append(fl(x))
            for o in m["oneofs"]:
                L.append("oneof %s {" % o["name"])
                if o["req"]:
                    L.append("option (validate.required) = true;")
                for x in o["fields"]:
                    L.append(fl(x, True))
                L.append("}")
            L.append("}")
        for m in f["msgs"]:
            put(m)
        if f["service"]:
            L += ["service %s {" % f["service"], "rpc Do(%s) returns (%s);" % (f["msgs"][0]["fq"], f["msgs"][-1]["fq"]), "rpc Watch(stream %s) returns (stream %s);" % (f["msgs"][-1]["fq"], f["msgs"][0]["fq"]), "}"]
        for k, m in enumerate(f["msgs"]):
            if "extensions" in m:
                L += ["extend %s {" % m["fq"], "optional int32 ext_%s_%d = %d;" % (m["name"].lower(), k, 1000 + k), "optional %s ext_m_%s_%d = %d;" % (m["fq"], m["name"].lower(), k, 2000 + k), "}"]
        return L

    def all_msgs(self, f):
        out = []
        def walk(ms):
            for m in ms:
                out.append(m)
                walk(m["msgs"])
        walk(f["msgs"])
        return out

    def plant(self, r):
        """Puts one contradictory or ill-typed rule somewhere; returns the file."""
        cands = [(f, m) for f in self.files if f["validate"] for m in self.all_msgs(f) if m["plain"] or m["opts"] == ["option (validate.ignored) = true;"]]
        cands = [(f, m) for f, m in cands if m["plain"]]
        if not cands:
            return None, None
        f, m = r.choice(cands)
        t, rule = bad_rule(r)
        if r.random() < .12:
            # a rule that is right for another field of the program
            other = [x for g in self.files if g["validate"] for n in self.all_msgs(g) for x in n["fields"] if x["rule"] and x["rule"].split(" ")[0] == x["t"]]
            if other:
                rule = r.choice(other)["rule"]
                t = r.choice([x for x in NUMERIC + ["string", "bytes", "bool"] if x != rule.split(" ")[0]])
        if "ENUM" in t:
            es = self.types(f, "enum")
            if not es:
                t, rule = BAD[0]
            else:
                t = t.replace("ENUM", r.choice(es))
        if "MSG" in t:
            t = t.replace("MSG", r.choice(self.types(f, "msg")))
        x = {"t": t, "name": "bad_field", "n": 99, "rule": rule, "dep": r.random() < .1, "req": r.random() < .2}
        if m["oneofs"] and not t.startswith(("repeated", "map")) and r.random() < .4:
            r.choice(m["oneofs"])["fields"].append(x)
        elif not t.startswith(("repeated", "map")) and r.random() < .08:
            m["oneofs"].append({"name": "bad_choice", "req": r.random() < .5, "fields": [x]})
        else:
            m["fields"].insert(r.randrange(0, len(m["fields"]) + 1), x)
        return f["path"], "%s %s" % (t, rule)

    def sources(self):
        return {f["path"]: self.text(f) for f in self.files}
