#include "simgen.h"
#include <arpa/inet.h>
#include <vector>
#include <re2/re2.h>
#include "validate/validate.pb.h"
using namespace google::protobuf;
using validate::FieldRules;

namespace {
const FieldRules& rules(const FieldDescriptor* f) { return f->options().GetExtension(validate::rules); }

const char* kAny[] = {"", "a", "b", "x", "yy", "ab", "abc", "k1", "pre", "zz9", "-", "h.example.org", "10.1.2.3", "::1", "999.1.1.1", "\xc3\xa9\xc3\xa9", "bad", "q", "q123", "one",
                      "a rather long value that needs memory of its own on the heap", "c87a1d5e-0000-4000-8000-0123456789ab", "c87a1d5e-0000-4000-8000-0123456789", "-a.b", "a..b", "type.googleapis.com/x.Y"};

std::string rep(const char* s, uint64_t n) { std::string o; for (uint64_t i = 0; i < n; i++) o += s[i % strlen(s)]; return o; }

std::string goodString(Rng& r, const validate::StringRules& s) {
  if (s.has_const_()) return s.const_();
  if (s.in_size()) return s.in(static_cast<int>(r.n(static_cast<uint64_t>(s.in_size()))));
  if (s.ip()) return r.p(50) ? "10.1.2." + std::to_string(r.n(256)) : "fe80::" + std::to_string(r.n(9999));
  if (s.ipv4()) return "1.2.3." + std::to_string(r.n(256));
  if (s.ipv6()) return "::" + std::to_string(r.n(9999));
  if (s.hostname()) return std::string("h") + std::to_string(r.n(99)) + (r.p(60) ? ".example.org" : "");
  if (s.address()) return r.p(40) ? "10.0.0." + std::to_string(r.n(256)) : "node-" + std::to_string(r.n(99)) + ".net";
  if (s.uuid()) { char b[64]; snprintf(b, sizeof b, "%08x-1234-4abc-8def-0123456789ab", static_cast<unsigned>(r.next())); return b; }
  std::string o = s.prefix() + s.contains();
  if (s.has_pattern()) {
    const std::string& p = s.pattern();
    if (p == "^[a-z]*$") o += rep("mnop", s.min_len() + r.n(3));
    else if (p == "^a+$") o += rep("a", 1 + r.n(4));
    else if (p == "[0-9q]*") o += rep("12q", 3 + r.n(3));
    else o += rep("qr", 1 + r.n(3));
    return o;
  }
  uint64_t lo = 0, hi = 5;
  if (s.has_len()) lo = hi = s.len();
  if (s.has_len_bytes()) lo = hi = s.len_bytes();
  if (s.has_min_len()) lo = s.min_len();
  if (s.has_min_bytes()) lo = s.min_bytes();
  if (hi < lo) hi = lo + 3;
  if (s.has_max_len()) hi = s.max_len();
  if (s.has_max_bytes()) hi = s.max_bytes();
  const char* abc[] = {"klmnop", "azz", "y"};
  o += rep(abc[r.n(3)], lo + r.n(hi - lo + 1));
  return o + s.suffix();
}
std::string goodBytes(Rng& r, const validate::BytesRules& s) {
  if (s.has_const_()) return s.const_();
  if (s.in_size()) return s.in(static_cast<int>(r.n(static_cast<uint64_t>(s.in_size()))));
  if (s.has_pattern()) return rep("xyz", r.n(4));
  uint64_t lo = s.min_len(), hi = s.has_max_len() ? s.max_len() : lo + 3;
  return s.prefix() + s.contains() + rep("klm", lo + r.n(hi - lo + 1)) + s.suffix();
}
template <class R> double goodNum(Rng& r, const R& s) {
  if (s.has_const_()) return static_cast<double>(s.const_());
  if (s.in_size()) return static_cast<double>(s.in(static_cast<int>(r.n(static_cast<uint64_t>(s.in_size())))));
  double lo = -1e18, hi = 1e18;
  bool hl = false, hh = false;
  if (s.has_gt()) lo = static_cast<double>(s.gt()) + 1, hl = true;
  if (s.has_gte()) lo = static_cast<double>(s.gte()), hl = true;
  if (s.has_lt()) hi = static_cast<double>(s.lt()) - 1, hh = true;
  if (s.has_lte()) hi = static_cast<double>(s.lte()), hh = true;
  if (hl && hh) return lo <= hi ? lo + static_cast<double>(r.n(static_cast<uint64_t>(hi - lo) + 1)) : (r.p(50) ? lo : hi);
  if (hl) return lo + static_cast<double>(r.n(3));
  if (hh) return hi - static_cast<double>(r.n(3));
  return static_cast<double>(1 + r.n(20));
}
double randNum(Rng& r) { const double v[] = {0, 1, 2, 3, 5, 7, 10, 16, 31, 32, 100, 101, -1, -3, -4, -5, -7, -9, 1.5, 4}; return v[r.n(20)]; }

double num(Rng& r, const FieldRules& fr, bool g) {
  if (!g) return randNum(r);
  switch (fr.type_case()) {
    case FieldRules::kFloat: return goodNum(r, fr.float_());
    case FieldRules::kDouble: return goodNum(r, fr.double_());
    case FieldRules::kInt32: return goodNum(r, fr.int32());
    case FieldRules::kInt64: return goodNum(r, fr.int64());
    case FieldRules::kUint32: return goodNum(r, fr.uint32());
    case FieldRules::kUint64: return goodNum(r, fr.uint64());
    case FieldRules::kSint32: return goodNum(r, fr.sint32());
    case FieldRules::kSint64: return goodNum(r, fr.sint64());
    case FieldRules::kFixed32: return goodNum(r, fr.fixed32());
    case FieldRules::kFixed64: return goodNum(r, fr.fixed64());
    case FieldRules::kSfixed32: return goodNum(r, fr.sfixed32());
    case FieldRules::kSfixed64: return goodNum(r, fr.sfixed64());
    case FieldRules::kBool: return fr.bool_().const_();
    case FieldRules::kEnum:
      if (fr.enum_().in_size()) return fr.enum_().in(static_cast<int>(r.n(static_cast<uint64_t>(fr.enum_().in_size()))));
      if (fr.enum_().has_const_()) return fr.enum_().const_();
      return static_cast<double>(r.n(2));
    default: return randNum(r);
  }
}

bool wrapperLike(const Descriptor* d) { return d->file()->name() == "google/protobuf/wrappers.proto"; }

void fillField(Message* m, const FieldDescriptor* f, const FieldRules& fr, Rng& r, int depth, int good, bool rep);

void fillMsg(Message* c, const FieldRules& fr, Rng& r, int depth, int good) {
  const Descriptor* d = c->GetDescriptor();
  bool g = r.p(good);
  if (wrapperLike(d)) { fillField(c, d->field(0), fr, r, depth, good, false); return; }
  if (d->full_name() == "google.protobuf.Duration") {
    int64_t s = static_cast<int64_t>(r.n(12)) - 1;
    const auto& u = fr.duration();
    if (g) {
      s = u.has_gt() && u.has_lt() && u.gt().seconds() > u.lt().seconds() ? 10 + static_cast<int64_t>(r.n(2)) : u.has_gt() ? u.gt().seconds() + 1 : u.has_gte() ? u.gte().seconds() : u.has_lt() ? u.lt().seconds() - 1 : s;
    }
    c->GetReflection()->SetInt64(c, d->FindFieldByName("seconds"), s);
    return;
  }
  if (d->full_name() == "google.protobuf.Timestamp") { c->GetReflection()->SetInt64(c, d->FindFieldByName("seconds"), static_cast<int64_t>(r.n(3000))); return; }
  if (d->full_name() == "google.protobuf.Any") {
    c->GetReflection()->SetString(c, d->FindFieldByName("type_url"), g && fr.any().in_size() ? fr.any().in(0) : r.p(60) ? "x/other" : "type.googleapis.com/x.Y");
    return;
  }
  if (depth > 0) fill(c, r, depth - 1, good, false);
}

void fillField(Message* m, const FieldDescriptor* f, const FieldRules& fr, Rng& r, int depth, int good, bool rep) {
  const Reflection* x = m->GetReflection();
  bool g = r.p(good);
#define PUT(K, T, V) { T v = static_cast<T>(V); rep ? x->Add##K(m, f, v) : x->Set##K(m, f, v); break; }
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: PUT(Int32, int32_t, num(r, fr, g))
    case FieldDescriptor::CPPTYPE_INT64: PUT(Int64, int64_t, num(r, fr, g))
    case FieldDescriptor::CPPTYPE_UINT32: { double w = num(r, fr, g); PUT(UInt32, uint32_t, w < 0 ? -w : w) }
    case FieldDescriptor::CPPTYPE_UINT64: { double w = num(r, fr, g); PUT(UInt64, uint64_t, w < 0 ? -w : w) }
    case FieldDescriptor::CPPTYPE_FLOAT: PUT(Float, float, num(r, fr, g))
    case FieldDescriptor::CPPTYPE_DOUBLE: PUT(Double, double, num(r, fr, g))
    case FieldDescriptor::CPPTYPE_BOOL: PUT(Bool, bool, g ? num(r, fr, g) : static_cast<double>(r.n(2)))
    case FieldDescriptor::CPPTYPE_ENUM: { int v = static_cast<int>(num(r, fr, g)); rep ? x->AddEnumValue(m, f, v) : x->SetEnumValue(m, f, v); break; }
    case FieldDescriptor::CPPTYPE_STRING: {
      std::string s = !g ? r.n(25) == 0 ? ::rep("klmxa9", 20 + r.n(300)) : kAny[r.n(sizeof kAny / sizeof *kAny)] : f->type() == FieldDescriptor::TYPE_BYTES ? goodBytes(r, fr.bytes()) : goodString(r, fr.string());
      rep ? x->AddString(m, f, s) : x->SetString(m, f, s);
      break;
    }
    case FieldDescriptor::CPPTYPE_MESSAGE: fillMsg(rep ? x->AddMessage(m, f) : x->MutableMessage(m, f), fr, r, depth, good); break;
  }
#undef PUT
}
}  // namespace

void fill(Message* m, Rng& r, int depth, int good, bool top) {
  const Descriptor* d = m->GetDescriptor();
  const Reflection* x = m->GetReflection();
  static int nodes;   // bounds messages that go deep
  if (top) nodes = 0;
  if (++nodes > 60) depth = 0;
  for (int i = 0; i < d->field_count(); i++) {
    const FieldDescriptor* f = d->field(i);
    const FieldRules& fr = rules(f);
    if (f->real_containing_oneof()) continue;
    bool plainmsg = f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE && !f->is_map() && !wrapperLike(f->message_type()) && f->message_type()->file()->package() != "google.protobuf";
    if (f->is_map()) {
      if (plainmsg && depth <= 0) continue;
      const auto& mr = fr.map();
      uint64_t lo = mr.min_pairs(), hi = mr.has_max_pairs() ? mr.max_pairs() : lo + 4;
      uint64_t n = r.p(good) ? lo + r.n(hi - lo + 1) : r.n(8);
      if (!mr.has_min_pairs() && r.p(30)) n = 0;
      if (top && r.n(60) == 0) n = 9 + r.n(30);
      const FieldDescriptor *kf = f->message_type()->map_key(), *vf = f->message_type()->map_value();
      if (vf->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE && depth <= 0 && vf->message_type()->file()->package() != "google.protobuf") n = lo;
      std::set<std::string> seen;
      for (uint64_t k = 0, tries = 0; k < n && tries < 40 + 3 * n; tries++) {
        std::unique_ptr<Message> e(x->GetMessageFactory()->GetPrototype(f->message_type())->New());
        if (!r.p(15)) fillField(e.get(), kf, mr.keys(), r, 0, good, false);   // or the default key
        if (r.p(20) && kf->cpp_type() == FieldDescriptor::CPPTYPE_STRING) e->GetReflection()->SetString(e.get(), kf, "key" + std::string(1 + k / 26, static_cast<char>('a' + k % 26)));
        std::string ks = e->SerializePartialAsString();
        if (!seen.insert(ks).second) continue;
        fillField(e.get(), vf, mr.values(), r, depth - 1, good, false);
        x->AddMessage(m, f)->CopyFrom(*e);
        k++;
      }
      continue;
    }
    if (f->is_repeated()) {
      if (plainmsg && depth <= 0) continue;
      const auto& rr = fr.repeated();
      uint64_t lo = rr.min_items(), hi = rr.has_max_items() ? rr.max_items() : lo + 3;
      uint64_t n = r.p(good) ? lo + r.n(hi - lo + 1) : r.n(7);
      if (plainmsg && n > 2) n = r.n(3);
      if (top && r.n(60) == 0) n = 9 + r.n(30);
      for (uint64_t k = 0; k < n; k++) fillField(m, f, rr.items(), r, depth - 1, good, true);
      continue;
    }
    if (plainmsg) {
      bool req = fr.message().required();
      if (depth <= 0 && !req) continue;
      if (req ? !r.p(good) : r.p(45)) continue;
      fillField(m, f, fr, r, depth, good, false);
      continue;
    }
    if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) {
      bool req = fr.message().required() || fr.any().required() || fr.duration().required() || fr.timestamp().required();
      if (req ? !r.p(good) : r.p(40)) continue;
    } else if (r.p((100 - good) / 2)) continue;
    fillField(m, f, fr, r, depth, good, false);
  }
  for (int i = 0; i < d->real_oneof_decl_count(); i++) {
    const OneofDescriptor* o = d->oneof_decl(i);
    bool req = o->options().GetExtension(validate::required);
    if (req ? !r.p(good) : r.p(50)) continue;
    for (int t = 0; t < 6; t++) {
      const FieldDescriptor* f = o->field(static_cast<int>(r.n(static_cast<uint64_t>(o->field_count()))));
      if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE && depth <= 0) continue;
      fillField(m, f, rules(f), r, depth, good, false);
      break;
    }
  }
}

// --- the model
namespace {
int both(int a, int b) { return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1; }
template <class R, class V> int numOk(const R& s, V v) {
  if (s.ignore_empty() && v == 0) return 1;
  if (s.has_const_() && v != s.const_()) return 0;
  if (s.in_size()) { bool h = false; for (auto e : s.in()) h |= e == v; if (!h) return 0; }
  for (auto e : s.not_in()) if (e == v) return 0;
  bool l = !(s.has_lt() && v >= s.lt()) && !(s.has_lte() && v > s.lte()), g = !(s.has_gt() && v <= s.gt()) && !(s.has_gte() && v < s.gte());
  bool hl = s.has_lt() || s.has_lte(), hg = s.has_gt() || s.has_gte();
  if (hl && hg) {
    auto up = s.has_lt() ? s.lt() : s.lte();
    auto lo = s.has_gt() ? s.gt() : s.gte();
    return up > lo ? l && g : l || g;
  }
  return l && g;
}
size_t chars(const std::string& s) { size_t n = 0; for (char c : s) n += (c & 0xc0) != 0x80; return n; }
bool hostOk(const std::string& h) {
  if (h.size() > 253 || h.empty()) return false;
  std::string part;
  std::vector<std::string> ps;
  for (char c : h) if (c == '.') ps.push_back(part), part.clear(); else part += c;
  if (!part.empty()) ps.push_back(part);
  for (auto& p : ps) {
    if (p.empty() || p.size() > 63 || p[0] == '-' || p.back() == '-') return false;
    for (char c : p) if (!isalnum(static_cast<unsigned char>(c)) && c != '-') return false;
  }
  return true;
}
bool ipOk(const std::string& s, bool v4, bool v6) { char b[64]; return (v4 && inet_pton(AF_INET, s.c_str(), b) == 1) || (v6 && inet_pton(AF_INET6, s.c_str(), b) == 1); }
int strOk(const validate::StringRules& s, const std::string& v) {
  if (s.ignore_empty() && v.empty()) return 1;
  if (s.has_const_() && v != s.const_()) return 0;
  if (s.in_size()) { bool h = false; for (auto& e : s.in()) h |= e == v; if (!h) return 0; }
  for (auto& e : s.not_in()) if (e == v) return 0;
  size_t n = chars(v);
  if ((s.has_len() && n != s.len()) || (s.has_min_len() && n < s.min_len()) || (s.has_max_len() && n > s.max_len())) return 0;
  if ((s.has_len_bytes() && v.size() != s.len_bytes()) || (s.has_min_bytes() && v.size() < s.min_bytes()) || (s.has_max_bytes() && v.size() > s.max_bytes())) return 0;
  if (v.compare(0, s.prefix().size(), s.prefix())) return 0;
  if (v.size() < s.suffix().size() || v.compare(v.size() - s.suffix().size(), std::string::npos, s.suffix())) return 0;
  if (s.has_contains() && v.find(s.contains()) == std::string::npos) return 0;
  if (s.has_not_contains() && v.find(s.not_contains()) != std::string::npos) return 0;
  if (s.has_pattern() && !re2::RE2::FullMatch(v, s.pattern())) return 0;
  if (s.ip()) return ipOk(v, true, true);
  if (s.ipv4()) return ipOk(v, true, false);
  if (s.ipv6()) return ipOk(v, false, true);
  if (s.hostname()) return hostOk(v);
  if (s.address()) return hostOk(v) || ipOk(v, true, true);
  if (s.uuid()) return re2::RE2::FullMatch(v, "[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}");
  if (s.has_well_known_regex()) return -1;
  return 1;
}
int bytesOk(const validate::BytesRules& s, const std::string& v) {
  if (s.ignore_empty() && v.empty()) return 1;
  if (s.has_const_() && v != s.const_()) return 0;
  if (s.in_size()) { bool h = false; for (auto& e : s.in()) h |= e == v; if (!h) return 0; }
  for (auto& e : s.not_in()) if (e == v) return 0;
  if ((s.has_len() && v.size() != s.len()) || (s.has_min_len() && v.size() < s.min_len()) || (s.has_max_len() && v.size() > s.max_len())) return 0;
  if (v.compare(0, s.prefix().size(), s.prefix())) return 0;
  if (v.size() < s.suffix().size() || v.compare(v.size() - s.suffix().size(), std::string::npos, s.suffix())) return 0;
  if (s.has_contains() && v.find(s.contains()) == std::string::npos) return 0;
  if (s.has_pattern() && !re2::RE2::FullMatch(v, s.pattern())) return 0;
  return 1;
}
int msgOk(const Message& c, const FieldRules& fr, const std::set<std::string>& L);

int valOk(const Message& m, const FieldDescriptor* f, const FieldRules& fr, int i, const std::set<std::string>& L) {
  const Reflection* x = m.GetReflection();
#define GET(K) (i < 0 ? x->Get##K(m, f) : x->GetRepeated##K(m, f, i))
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_MESSAGE: return msgOk(i < 0 ? x->GetMessage(m, f) : x->GetRepeatedMessage(m, f, i), fr, L);
    case FieldDescriptor::CPPTYPE_STRING:
      if (fr.has_string()) return strOk(fr.string(), GET(String));
      if (fr.has_bytes()) return bytesOk(fr.bytes(), GET(String));
      break;
    case FieldDescriptor::CPPTYPE_ENUM: {
      int v = GET(EnumValue);
      const auto& e = fr.enum_();
      if (e.has_const_() && v != e.const_()) return 0;
      if (e.defined_only() && !f->enum_type()->FindValueByNumber(v)) return 0;
      if (e.in_size()) { bool h = false; for (auto k : e.in()) h |= k == v; if (!h) return 0; }
      for (auto k : e.not_in()) if (k == v) return 0;
      return 1;
    }
    case FieldDescriptor::CPPTYPE_BOOL: return fr.has_bool_() && fr.bool_().has_const_() && GET(Bool) != fr.bool_().const_() ? 0 : 1;
    default: break;
  }
  switch (fr.type_case()) {
    case FieldRules::TYPE_NOT_SET: return 1;
    case FieldRules::kFloat: return numOk(fr.float_(), GET(Float));
    case FieldRules::kDouble: return numOk(fr.double_(), GET(Double));
    case FieldRules::kInt32: return numOk(fr.int32(), GET(Int32));
    case FieldRules::kInt64: return numOk(fr.int64(), GET(Int64));
    case FieldRules::kUint32: return numOk(fr.uint32(), GET(UInt32));
    case FieldRules::kUint64: return numOk(fr.uint64(), GET(UInt64));
    case FieldRules::kSint32: return numOk(fr.sint32(), GET(Int32));
    case FieldRules::kSint64: return numOk(fr.sint64(), GET(Int64));
    case FieldRules::kFixed32: return numOk(fr.fixed32(), GET(UInt32));
    case FieldRules::kFixed64: return numOk(fr.fixed64(), GET(UInt64));
    case FieldRules::kSfixed32: return numOk(fr.sfixed32(), GET(Int32));
    case FieldRules::kSfixed64: return numOk(fr.sfixed64(), GET(Int64));
    default: return -1;
  }
#undef GET
}
int msgOk(const Message& c, const FieldRules& fr, const std::set<std::string>& L) {
  const Descriptor* d = c.GetDescriptor();
  if (wrapperLike(d)) return valOk(c, d->field(0), fr, -1, L);
  if (d->full_name() == "google.protobuf.Duration") {
    if (!fr.has_duration()) return 1;
    const auto& s = fr.duration();
    auto ns = [](const Duration& u) { return static_cast<__int128>(u.seconds()) * 1000000000 + u.nanos(); };
    Duration u;
    u.set_seconds(c.GetReflection()->GetInt64(c, d->FindFieldByName("seconds")));
    u.set_nanos(c.GetReflection()->GetInt32(c, d->FindFieldByName("nanos")));
    if (s.in_size() || s.not_in_size()) return -1;
    auto v = ns(u);
    if (s.has_const_() && v != ns(s.const_())) return 0;
    bool l = !(s.has_lt() && v >= ns(s.lt())) && !(s.has_lte() && v > ns(s.lte())), g = !(s.has_gt() && v <= ns(s.gt())) && !(s.has_gte() && v < ns(s.gte()));
    if ((s.has_lt() || s.has_lte()) && (s.has_gt() || s.has_gte())) return ns(s.has_lt() ? s.lt() : s.lte()) > ns(s.has_gt() ? s.gt() : s.gte()) ? l && g : l || g;
    return l && g;
  }
  if (d->full_name() == "google.protobuf.Timestamp") return 1;
  if (d->full_name() == "google.protobuf.Any") {
    std::string u = c.GetReflection()->GetString(c, d->FindFieldByName("type_url"));
    if (fr.any().in_size()) { bool h = false; for (auto& e : fr.any().in()) h |= e == u; if (!h) return 0; }
    for (auto& e : fr.any().not_in()) if (e == u) return 0;
    return 1;
  }
  if (fr.message().skip()) return 1;
  return model(c, L);
}
}  // namespace

int model(const Message& m, const std::set<std::string>& L) {
  const Descriptor* d = m.GetDescriptor();
  if (!L.count(d->file()->name()) || d->options().GetExtension(validate::disabled) || d->options().GetExtension(validate::ignored)) return 1;
  const Reflection* x = m.GetReflection();
  int ok = 1;
  for (int i = 0; i < d->field_count(); i++) {
    const FieldDescriptor* f = d->field(i);
    const FieldRules& fr = rules(f);
    if (f->is_map()) {
      const auto& s = fr.map();
      int n = x->FieldSize(m, f);
      if (s.ignore_empty() && !n) continue;
      if ((s.has_min_pairs() && static_cast<uint64_t>(n) < s.min_pairs()) || (s.has_max_pairs() && static_cast<uint64_t>(n) > s.max_pairs())) ok = 0;
      for (int k = 0; k < n; k++) {
        const Message& e = x->GetRepeatedMessage(m, f, k);
        ok = both(ok, both(valOk(e, f->message_type()->map_key(), s.keys(), -1, L), valOk(e, f->message_type()->map_value(), s.values(), -1, L)));
      }
      continue;
    }
    if (f->is_repeated()) {
      const auto& s = fr.repeated();
      int n = x->FieldSize(m, f);
      if (s.ignore_empty() && !n) continue;
      if ((s.has_min_items() && static_cast<uint64_t>(n) < s.min_items()) || (s.has_max_items() && static_cast<uint64_t>(n) > s.max_items())) ok = 0;
      if (s.unique()) {
        for (int a = 0; a < n; a++) for (int b = 0; b < a; b++) {
          if (f->cpp_type() == FieldDescriptor::CPPTYPE_STRING) { if (x->GetRepeatedString(m, f, a) == x->GetRepeatedString(m, f, b)) ok = 0; }
          else if (f->cpp_type() == FieldDescriptor::CPPTYPE_DOUBLE) { if (x->GetRepeatedDouble(m, f, a) == x->GetRepeatedDouble(m, f, b)) ok = 0; }
          else ok = both(ok, -1);
        }
      }
      for (int k = 0; k < n; k++) ok = both(ok, valOk(m, f, s.items(), k, L));
      continue;
    }
    if (f->real_containing_oneof() && !x->HasField(m, f)) continue;
    if (f->cpp_type() == FieldDescriptor::CPPTYPE_MESSAGE) {
      if (!x->HasField(m, f)) {
        if (fr.message().required() || fr.any().required() || fr.duration().required() || fr.timestamp().required()) ok = 0;
        continue;
      }
    }
    ok = both(ok, valOk(m, f, fr, -1, L));
  }
  for (int i = 0; i < d->real_oneof_decl_count(); i++) {
    const OneofDescriptor* o = d->oneof_decl(i);
    if (o->options().GetExtension(validate::required) && !x->HasOneof(m, o)) ok = 0;
  }
  return ok;
}

namespace {
struct Leaf { Message* m; const FieldDescriptor* f; int i; };   // i: -1 singular
void leaves(Message* m, std::vector<Leaf>& out, int depth) {
  std::vector<const FieldDescriptor*> fs;
  const Reflection* x = m->GetReflection();
  x->ListFields(*m, &fs);
  for (auto* f : fs) {
    int n = f->is_repeated() ? x->FieldSize(*m, f) : 1;
    for (int i = 0; i < n; i++) {
      if (f->cpp_type() != FieldDescriptor::CPPTYPE_MESSAGE) { out.push_back(Leaf{m, f, f->is_repeated() ? i : -1}); continue; }
      if (depth <= 0) continue;
      Message* c = f->is_repeated() ? x->MutableRepeatedMessage(m, f, i) : x->MutableMessage(m, f);
      size_t at = out.size();
      leaves(c, out, depth - 1);
      // keys of maps stay
      if (f->is_map()) for (size_t k = out.size(); k > at; k--) if (out[k - 1].m == c && out[k - 1].f->number() == 1) out.erase(out.begin() + static_cast<long>(k - 1));
    }
  }
}
}  // namespace
void mutate(Message* m, Rng& r) {
  std::vector<Leaf> ls;
  leaves(m, ls, 4);
  for (uint64_t k = 1 + r.n(2); k && !ls.empty(); k--) {
    Leaf l = ls[r.n(ls.size())];
    const Reflection* x = l.m->GetReflection();
    switch (l.f->cpp_type()) {
      case FieldDescriptor::CPPTYPE_STRING: {
        std::string s = l.i < 0 ? x->GetString(*l.m, l.f) : x->GetRepeatedString(*l.m, l.f, l.i);
        const char c[] = "_-.zQ7:g";
        if (r.p(30)) s.clear();
        else if (!s.empty()) s[r.n(s.size())] = c[r.n(8)];
        bool utf = true;
        for (char q : s) utf &= (q & 0x80) == 0;
        if (!utf && l.f->type() == FieldDescriptor::TYPE_STRING) break;
        if (l.i < 0) x->SetString(l.m, l.f, s); else x->SetRepeatedString(l.m, l.f, l.i, s);
        break;
      }
      case FieldDescriptor::CPPTYPE_INT32: { int32_t v = static_cast<int32_t>(randNum(r)); if (l.i < 0) x->SetInt32(l.m, l.f, v); else x->SetRepeatedInt32(l.m, l.f, l.i, v); break; }
      case FieldDescriptor::CPPTYPE_INT64: { int64_t v = static_cast<int64_t>(randNum(r)); if (l.i < 0) x->SetInt64(l.m, l.f, v); else x->SetRepeatedInt64(l.m, l.f, l.i, v); break; }
      case FieldDescriptor::CPPTYPE_UINT32: { uint32_t v = static_cast<uint32_t>(r.n(200)); if (l.i < 0) x->SetUInt32(l.m, l.f, v); else x->SetRepeatedUInt32(l.m, l.f, l.i, v); break; }
      case FieldDescriptor::CPPTYPE_UINT64: { uint64_t v = r.n(200); if (l.i < 0) x->SetUInt64(l.m, l.f, v); else x->SetRepeatedUInt64(l.m, l.f, l.i, v); break; }
      case FieldDescriptor::CPPTYPE_DOUBLE: { double v = randNum(r); if (l.i < 0) x->SetDouble(l.m, l.f, v); else x->SetRepeatedDouble(l.m, l.f, l.i, v); break; }
      case FieldDescriptor::CPPTYPE_FLOAT: { float v = static_cast<float>(randNum(r)); if (l.i < 0) x->SetFloat(l.m, l.f, v); else x->SetRepeatedFloat(l.m, l.f, l.i, v); break; }
      case FieldDescriptor::CPPTYPE_BOOL: { bool v = r.p(50); if (l.i < 0) x->SetBool(l.m, l.f, v); else x->SetRepeatedBool(l.m, l.f, l.i, v); break; }
      case FieldDescriptor::CPPTYPE_ENUM: { int v = static_cast<int>(r.n(5)) - 1; if (l.i < 0) x->SetEnumValue(l.m, l.f, v); else x->SetRepeatedEnumValue(l.m, l.f, l.i, v); break; }
      default: break;
    }
  }
}
