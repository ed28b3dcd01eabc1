// Simulated histories of C++ validation. A zygote process forks one child per
// history, so every history starts with the very first call of a process.
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <map>
#include <memory>
#include <sstream>
#include <unordered_set>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include "simgen.h"
#include "simcore.h"
#include "simtypes.h"

void add_types();
namespace {
using google::protobuf::Message;
using std::string;

struct Msg { string type, bytes; uint64_t mapseed; };
struct Op { int thread; char kind; int msg; int priv; uint64_t mapseed; int64_t fail; bool from; };  // kind: V function, C dispatch, L load module <msg>; priv: 0 the shared message, 1 a copy of its own, 2 its copy parsed into the thread's earlier object
struct Plan {
  string mode;
  int threads = 1;
  uint64_t seed = 1;
  int permille = 0;
  bool explicit_sw = false;
  std::vector<SimSwitch> sw;
  std::vector<Msg> msgs;
  std::vector<Op> ops;
};
struct Res { int rc = -9; string err, exc; int64_t allocs = 0, failed = 0, live = 0; int lo = 0, hi = 0; };   // rc: 0 reject 1 accept 2 exception
struct Out { std::vector<Res> res; std::vector<SimSwitch> trace; uint32_t steps = 0; string bad; int races = 0; string race; bool done = false; std::vector<int> leaks; };

std::vector<std::pair<string, string>> modules;   // path, proto file
string hex(const string& s) { static const char* d = "0123456789abcdef"; string o; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o.empty() ? "-" : o; }
string unhex(const string& h) { string o; if (h == "-") return o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)); return o; }
string oneline(string s) { for (char& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

string text(const Plan& p) {
  std::ostringstream o;
  o << "mode " << p.mode << "\nthreads " << p.threads << "\nseed " << p.seed << "\npermille " << p.permille << "\n";
  for (auto& m : p.msgs) o << "msg " << m.type << " " << m.mapseed << " " << hex(m.bytes) << "\n";
  for (auto& x : p.ops) o << "op " << x.thread << " " << x.kind << " " << x.msg << " " << x.priv << " " << x.mapseed << " " << x.fail << " " << x.from << "\n";
  if (p.explicit_sw) { o << "explicit\n"; for (auto& s : p.sw) o << "sw " << s.step << " " << s.target << "\n"; }
  return o.str();
}
Plan parse(std::istream& in) {
  Plan p;
  string l;
  while (std::getline(in, l)) {
    std::istringstream s(l);
    string k;
    s >> k;
    if (k == "mode") s >> p.mode;
    else if (k == "threads") s >> p.threads;
    else if (k == "seed") s >> p.seed;
    else if (k == "permille") s >> p.permille;
    else if (k == "msg") { Msg m; string h; s >> m.type >> m.mapseed >> h; m.bytes = unhex(h); p.msgs.push_back(m); }
    else if (k == "op") { Op o; s >> o.thread >> o.kind >> o.msg >> o.priv >> o.mapseed >> o.fail >> o.from; p.ops.push_back(o); }
    else if (k == "explicit") p.explicit_sw = true;
    else if (k == "sw") { SimSwitch w; s >> w.step >> w.target; p.sw.push_back(w); }
  }
  return p;
}
const Type* type(const string& n) { for (auto& t : types()) if (t.d->full_name() == n) return &t; return nullptr; }
string bytesOf(const Message& m) {
  string s;
  google::protobuf::io::StringOutputStream z(&s);
  google::protobuf::io::CodedOutputStream c(&z);
  c.SetSerializationDeterministic(true);
  m.SerializeToCodedStream(&c);
  c.Trim();
  return s;
}
Message* build(const Msg& m, uint64_t seed) {
  sim_set_map_seed(seed);
  Message* x = type(m.type)->proto->New();
  if (!x->ParseFromString(m.bytes)) _exit(41);
  return x;
}

// --- inside a child
struct World { const Plan* p; Out* o; std::vector<Message*> shared; std::map<std::pair<int, string>, Message*> slots; std::set<int> modified; std::vector<string> before; int fd; int loaded = 0, loading = 0; bool loader = false; } W;
volatile int race_count;

void put(const string& s) { size_t n = 0; while (n < s.size()) { ssize_t k = write(W.fd, s.data() + n, s.size() - n); if (k <= 0) _exit(42); n += static_cast<size_t>(k); } }

void report(const string& extra) {
  std::ostringstream o;
  for (size_t i = 0; i < W.o->res.size(); i++) {
    Res& r = W.o->res[i];
    o << "op " << i << " " << r.rc << " " << r.allocs << " " << r.failed << " " << r.live << " " << r.lo << " " << r.hi << " " << hex(r.err) << " " << hex(r.exc) << "\n";
  }
  static SimSwitch tr[SIM_MAXSWITCH];
  int n = sim_trace(tr, SIM_MAXSWITCH);
  o << "steps " << sim_steps() << "\ntrace";
  for (int i = 0; i < n; i++) o << " " << tr[i].step << ":" << tr[i].target;
  o << "\n" << extra;
  if (race_count) o << "races " << race_count << "\n";
  o << "done\n";
  put(o.str());
}
void on_fatal(const char* what) {
  report(string("bad ") + what + "\n");
  _exit(0);
}
void run_op(const Op& op, Res& r) {
  sim_mask(1);
  const Plan& p = *W.p;
  if (op.kind == 'L') {
    // one loader at a time: dlopen's own lock is not simulated
    while (W.loader) sim_block();
    W.loader = true;
    W.loading |= 1 << op.msg;
    r.lo = W.loaded;
    sim_mask(0);
    void* h = dlopen(modules[static_cast<size_t>(op.msg)].first.c_str(), (op.from ? RTLD_GLOBAL : RTLD_LOCAL) | RTLD_NOW);
    sim_mask(1);
    if (!h) { r.rc = 2; r.exc = dlerror(); } else { r.rc = 1; W.loaded |= 1 << op.msg; }
    W.loader = false;
    sim_wake();
    r.hi = W.loading;
    sim_mask(0);
    return;
  }
  Message* m;
  const Msg& mm = p.msgs[static_cast<size_t>(op.msg)];
  const Type* t = type(mm.type);
  if (op.priv == 2) {
    Message*& z = W.slots[{op.thread, mm.type}];
    sim_set_map_seed(op.mapseed);
    if (!z) z = t->proto->New();
    z->Clear();
    if (!z->ParseFromString(mm.bytes)) _exit(41);
    m = z;
  }
  else m = op.priv ? build(mm, op.mapseed) : W.shared[static_cast<size_t>(op.msg)];
  r.lo = W.loaded;
  {
    string err("untouched"), exc;
    int rc = -9;
    auto* f = op.kind == 'V' && t->validate ? t->validate : t->check;
    sim_mask(0);
    sim_yield();
    sim_alloc_begin(op.fail, op.from);
    try { rc = f(*m, &err) ? 1 : 0; }
    catch (std::exception& e) { sim_mask(1); rc = 2; exc = e.what(); sim_mask(0); }
    catch (...) { rc = 2; sim_mask(1); exc = "exception of another type"; sim_mask(0); }
    sim_alloc_end();
    sim_mask(1);
    r.allocs = sim_alloc_count();
    r.failed = sim_alloc_failed();
    r.rc = rc; r.err = err; r.exc = exc;
  }
  r.live = sim_alloc_live();
  r.hi = W.loaded | W.loading;
  if (op.priv) {
    if (bytesOf(*m) != W.before[static_cast<size_t>(op.msg)]) W.modified.insert(op.msg);
    if (op.priv == 1) delete m;
  }
  sim_mask(0);
  sim_yield();
}
void* thread_main(void* a) {
  int id = static_cast<int>(reinterpret_cast<intptr_t>(a));
  sim_thread_begin(id);
  for (size_t i = 0; i < W.p->ops.size(); i++)
    if (W.p->ops[i].thread == id) run_op(W.p->ops[i], W.o->res[i]);
  sim_thread_end();
  return nullptr;
}
[[noreturn]] void child(const Plan& p, int fd) {
  alarm(30);
  Out o;
  o.res.resize(p.ops.size());
  W.p = &p; W.o = &o; W.fd = fd;
  sim_fatal = on_fatal;
  if (p.mode == "c06") sim_alloc_enable();
  for (auto& m : p.msgs) { W.shared.push_back(build(m, m.mapseed)); W.before.push_back(bytesOf(*W.shared.back())); }
  std::vector<pthread_t> th(static_cast<size_t>(p.threads));
  sim_setup(p.seed, p.threads, p.permille, 30000000, p.explicit_sw ? p.sw.data() : nullptr, static_cast<int>(p.sw.size()));
  static SimSwitch none;
  if (p.explicit_sw && p.sw.empty()) sim_setup(p.seed, p.threads, 0, 30000000, &none, 0);
  for (int i = 0; i < p.threads; i++) pthread_create(&th[static_cast<size_t>(i)], nullptr, thread_main, reinterpret_cast<void*>(static_cast<intptr_t>(i)));
  sim_go();
  for (auto& t : th) pthread_join(t, nullptr);
  std::ostringstream extra;
  for (size_t i = 0; i < p.msgs.size(); i++) if (bytesOf(*W.shared[i]) != W.before[i]) extra << "bad message " << i << " (" << p.msgs[i].type << ") was modified by validation\n";
  for (int i : W.modified) extra << "bad message " << i << " (" << p.msgs[static_cast<size_t>(i)].type << ") was modified by validation\n";
  // leaks: only what grows with every repetition counts
  if (p.mode == "c06") {
    sim_direct(1);
    for (size_t i = 0; i < p.ops.size(); i++) {
      if (!o.res[i].live || p.ops[i].kind == 'L') continue;
      // a first call may fill caches that stay
      { Op w = p.ops[i]; w.fail = 0; Res r; run_op(w, r); }
      int grew = 0;
      for (int k = 0; k < 4; k++) { Res r; run_op(p.ops[i], r); grew += r.live > 0; }
      if (grew == 4) extra << "bad operation " << i << " leaks memory each time" << (p.ops[i].fail ? " its allocation fails" : "") << "\n";
    }
    sim_direct(0);
  }
  // and once more, after everything
  if (p.mode == "c05" || p.mode == "c09" || p.mode == "c06") {
    for (size_t i = 0; i < p.ops.size(); i++) {
      if (p.ops[i].kind == 'L') continue;
      Op op = p.ops[i];
      op.fail = 0;
      Res r;
      sim_direct(1);
      run_op(op, r);
      sim_direct(0);
      extra << "after " << i << " " << r.rc << " " << r.lo << " " << hex(r.err) << " " << hex(r.exc) << "\n";
    }
  }
  report(extra.str());
  _exit(0);
}

// --- outside
struct After { int rc; int lo; string err, exc; };
struct Run { Out o; std::map<size_t, After> after; string died; string sanitizer; };
uint64_t forks;

Run execute(const Plan& p) {
  forks++;
  Run r;
  int fd[2];
  if (pipe(fd)) exit(3);
  int log = memfd_create("log", 0);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (!pid) {
    close(fd[0]);
    dup2(log, 2);
    child(p, fd[1]);
  }
  close(fd[1]);
  string all;
  char buf[1 << 16];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) all.append(buf, static_cast<size_t>(k));
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  lseek(log, 0, SEEK_SET);
  while ((k = read(log, buf, sizeof buf)) > 0) r.sanitizer.append(buf, static_cast<size_t>(k));
  close(log);
  std::istringstream in(all);
  string l;
  r.o.res.resize(p.ops.size());
  while (std::getline(in, l)) {
    std::istringstream s(l);
    string key;
    s >> key;
    if (key == "op") { size_t i; string e, x; s >> i; Res& q = r.o.res[i]; s >> q.rc >> q.allocs >> q.failed >> q.live >> q.lo >> q.hi >> e >> x; q.err = unhex(e); q.exc = unhex(x); }
    else if (key == "after") { size_t i; After a; string e, x; s >> i >> a.rc >> a.lo >> e >> x; a.err = unhex(e); a.exc = unhex(x); r.after[i] = a; }
    else if (key == "steps") s >> r.o.steps;
    else if (key == "trace") { string w; while (s >> w) { SimSwitch q; sscanf(w.c_str(), "%u:%u", &q.step, &q.target); r.o.trace.push_back(q); } }
    else if (key == "bad") { if (r.o.bad.empty()) r.o.bad = l.substr(4); }
    else if (key == "races") s >> r.o.races;
    else if (key == "done") r.o.done = true;
  }
  if (!r.o.done) {
    if (WIFSIGNALED(st)) r.died = WTERMSIG(st) == SIGALRM ? "hang: no progress within 30 s" : string("crash: ") + strsignal(WTERMSIG(st));
    else r.died = "crash: the process ended with status " + std::to_string(WEXITSTATUS(st));
    size_t s = r.sanitizer.find("SUMMARY: ");
    if (s != string::npos) r.died += " (" + oneline(r.sanitizer.substr(s, r.sanitizer.find('\n', s) - s)) + ")";
    else if ((s = r.sanitizer.find("terminate called")) != string::npos) r.died += " (" + oneline(r.sanitizer.substr(s, 120)) + ")";
  }
  return r;
}
// Does the message hold a map whose order can show in the error text?
bool ordered(const Message& m) {
  std::vector<const google::protobuf::FieldDescriptor*> fs;
  m.GetReflection()->ListFields(m, &fs);
  for (auto* f : fs) {
    if (f->is_map() && m.GetReflection()->FieldSize(m, f) > 1) return true;
    if (f->cpp_type() != google::protobuf::FieldDescriptor::CPPTYPE_MESSAGE) continue;
    if (!f->is_repeated()) { if (ordered(m.GetReflection()->GetMessage(m, f))) return true; continue; }
    for (int i = 0; i < m.GetReflection()->FieldSize(m, f); i++) if (ordered(m.GetReflection()->GetRepeatedMessage(m, f, i))) return true;
  }
  return false;
}
// An object used before keeps its tables, and so its map order.
bool own_order(const Plan& p, const Op& o) {
  if (o.priv != 2) return false;
  std::unique_ptr<Message> m(build(p.msgs[static_cast<size_t>(o.msg)], 1));
  return ordered(*m);
}
string desc(const Plan& p, size_t i) {
  const Op& o = p.ops[i];
  const Msg& m = p.msgs[static_cast<size_t>(o.msg)];
  return string(o.kind == 'V' ? "Validate" : "CheckMessage") + "(" + m.type + ") [operation " + std::to_string(i) + ", thread " + std::to_string(o.thread) + "]";
}
string answer(int rc, const string& err, const string& exc) { return rc == 1 ? "accepted" : rc == 0 ? "rejected: " + oneline(err) : rc == 2 ? "threw " + oneline(exc) : "no answer"; }

struct Stats { uint64_t runs = 0, plans = 0, ops = 0, steps = 0, switches = 0, multi = 0, faults = 0, loads = 0, races = 0, accepts = 0, rejects = 0, unknown = 0, excs = 0, during = 0, from = 0; std::unordered_set<uint64_t> hashes; } st;
std::map<string, Run> refs;

Run reference(const Plan& p, const Op& op) {
  Plan q;
  q.mode = p.mode == "c06" ? "c06" : "ref";
  q.msgs = {p.msgs[static_cast<size_t>(op.msg)]};
  Op o = op;
  o.thread = 0; o.msg = 0; o.fail = 0; o.from = false; o.priv = 1; o.mapseed = op.priv ? op.mapseed : q.msgs[0].mapseed;
  q.ops = {o};
  string key = std::to_string(o.mapseed) + o.kind + q.msgs[0].type + " " + q.msgs[0].bytes;
  auto it = refs.find(key);
  if (it != refs.end()) return it->second;
  if (refs.size() > 3000) refs.clear();
  return refs[key] = execute(q);
}
string race_summary(const string& s) {
  size_t a = s.find("SUMMARY: ");
  string sum = a == string::npos ? "" : oneline(s.substr(a + 9, s.find('\n', a) - a - 9));
  if (getenv("CCSIM_VERBOSE")) fprintf(stderr, "%s\n", s.c_str());
  return sum;
}
std::set<string> files(int mask) {
  std::set<string> s;
  for (size_t i = 0; i < modules.size(); i++) if (mask >> i & 1) s.insert(modules[i].second);
  return s;
}
// What is wrong with the run, or "".
string judge(const Plan& p, const Run& r, const std::vector<Run>& ref) {
  if (!r.died.empty()) return r.died;
  if (!r.o.bad.empty()) return r.o.bad;
  if (r.o.races) return "data race: " + race_summary(r.sanitizer);
  for (size_t i = 0; i < p.ops.size(); i++) {
    const Res& a = r.o.res[i];
    if (p.mode == "c09") {
      if (p.ops[i].kind == 'L') { if (a.rc != 1) return "loading a module failed: " + a.exc; continue; }
      std::unique_ptr<Message> m(build(p.msgs[static_cast<size_t>(p.ops[i].msg)], 1));
      int lo = model(*m, files(a.lo)), hi = model(*m, files(a.hi));
      if (a.rc == 2) return desc(p, i) + " threw " + a.exc;
      if (lo < 0 || hi < 0) { st.unknown++; continue; }
      if (a.lo != a.hi) st.during++;
      (a.rc ? st.accepts : st.rejects)++;
      if (lo == 0 && a.rc) return desc(p, i) + " accepted a message that breaks rules loaded before the call";
      if (hi == 1 && !a.rc) return desc(p, i) + " rejected a message that meets every rule loaded so far: " + oneline(a.err);
      continue;
    }
    const Res& b = ref[i].o.res[0];
    bool exact = p.mode == "c05" || !a.failed;
    (b.rc == 1 ? st.accepts : st.rejects)++;
    if (a.rc == 2 && a.failed) { st.excs++; continue; }
    if (a.rc != b.rc) return desc(p, i) + ": " + answer(a.rc, a.err, a.exc) + (a.failed ? " after a failed allocation" : "") + "; alone: " + answer(b.rc, b.err, b.exc);
    if (exact && (a.err != b.err || a.exc != b.exc) && !own_order(p, p.ops[i])) return desc(p, i) + ": error text " + oneline(a.err + a.exc) + "; alone: " + oneline(b.err + b.exc);
  }
  for (auto& q : r.after) {
    size_t i = q.first;
    if (p.mode == "c09") {
      std::unique_ptr<Message> m(build(p.msgs[static_cast<size_t>(p.ops[i].msg)], 1));
      int want = model(*m, files(q.second.lo));
      if (want >= 0 && q.second.rc != want) return desc(p, i) + " after all modules were loaded: " + answer(q.second.rc, q.second.err, q.second.exc) + ", but the rules say " + (want ? "accept" : "reject");
      continue;
    }
    const Res& b = ref[i].o.res[0];
    if (q.second.rc != b.rc || (q.second.err != b.err && !own_order(p, p.ops[i]))) return desc(p, i) + " repeated at the end: " + answer(q.second.rc, q.second.err, q.second.exc) + "; alone: " + answer(b.rc, b.err, b.exc);
  }
  return "";
}
string judge_all(const Plan& p, Run* out = nullptr) {
  std::vector<Run> ref(p.ops.size());
  if (p.mode != "c09") {
    std::map<int, std::pair<int, size_t>> byMsg;
    for (size_t i = 0; i < p.ops.size(); i++) {
      ref[i] = reference(p, p.ops[i]);
      st.runs++;
      if (!ref[i].died.empty()) return desc(p, i) + " alone: " + ref[i].died;
      if (!ref[i].o.bad.empty()) return desc(p, i) + " alone: " + ref[i].o.bad;
      if (ref[i].o.races) return desc(p, i) + " alone: data race: " + race_summary(ref[i].sanitizer);
      int rc = ref[i].o.res[0].rc;
      // the answer may not depend on the order of map entries, nor on the way it is asked for
      auto it = byMsg.find(p.ops[i].msg);
      if (it == byMsg.end()) byMsg[p.ops[i].msg] = {rc, i};
      else if (it->second.first != rc && p.mode == "c06" && p.ops[it->second.second].kind == p.ops[i].kind)
        return desc(p, i) + ": " + answer(rc, ref[i].o.res[0].err, ref[i].o.res[0].exc) + " in one map order and " + answer(it->second.first, ref[it->second.second].o.res[0].err, "") + " in another";
    }
  }
  Run r = execute(p);
  st.runs++;
  string w = judge(p, r, ref);
  if (out) *out = r;
  return w;
}
Plan make(const string& mode, uint64_t seed) {
  Rng r{seed};
  Plan p;
  p.mode = mode;
  p.seed = r.next();
  std::vector<string> pool;
  if (mode == "c05") pool = {"sim.a.Node", "sim.a.Node", "sim.a.Node", "sim.a.Strings", "sim.a.Hosts", "sim.a.Hosts", "sim.a.Numbers", "sim.a.Maps", "sim.a.Lists", "sim.a.Wrapped", "sim.a.Uniq", "sim.a.Spans", "sim.a.Node.Inner", "sim.b.Node", "sim.b.Box", "sim.b.Item", "sim.b.item.Holder", "sim.b.item_Holder", "sim.b.item.Item", "sim.common.Box", "sim.common.Item", "sim.foreign.Plain", "sim.foreign.Item", "sim.common.Off", "sim.common.Ign", "sim.foreign.Empty"};
  if (mode == "c06") pool = {"sim.a.Node", "sim.a.Node", "sim.a.Strings", "sim.a.Hosts", "sim.a.Hosts", "sim.a.Maps", "sim.a.Maps", "sim.a.MapsEmpty", "sim.a.MapsEmpty", "sim.a.Lists", "sim.a.Lists", "sim.a.Wrapped", "sim.a.Uniq", "sim.a.Spans", "sim.b.Node", "sim.b.Box", "sim.b.item.Holder", "sim.common.Box", "sim.a.Numbers"};
  if (mode == "c09") pool = {"sim.a.Node", "sim.a.Node", "sim.a.Maps", "sim.a.Lists", "sim.b.Node", "sim.b.Box", "sim.b.Item", "sim.b.item.Holder", "sim.b.item.Holder", "sim.b.item_Holder", "sim.b.item.Item", "sim.common.Box", "sim.common.Item", "sim.foreign.Item", "sim.common.Ign", "sim.common.Off", "sim.a.Node.Inner", "sim.common.Box.Inner", "sim.b.Box.Inner"};
  int nm = 1 + static_cast<int>(r.n(mode == "c06" ? 3 : 4));
  int good = static_cast<int>(r.n(3) == 0 ? 85 : r.n(2) ? 97 : 100);
  bool same = r.p(30);
  string first;
  for (int i = 0; i < nm; i++) {
    Msg m;
    m.type = same && i ? first : pool[r.n(pool.size())];
    first = m.type;
    m.mapseed = r.next() | 1;
    const Type* t = type(m.type);
    std::unique_ptr<Message> x(t->proto->New());
    sim_set_map_seed(m.mapseed);
    if (i && r.p(35)) {
      // an earlier message, a little changed
      m.type = p.msgs.back().type;
      first = m.type;
      x.reset(build(p.msgs.back(), m.mapseed));
      mutate(x.get(), r);
    } else {
      fill(x.get(), r, static_cast<int>(r.n(25) ? r.n(3) : 12) + (mode == "c09" ? 1 : 0), good);
      if (r.p(30)) mutate(x.get(), r);
    }
    m.bytes = bytesOf(*x);
    p.msgs.push_back(m);
  }
  p.threads = mode == "c06" ? (r.p(60) ? 1 : 2) : 1 + static_cast<int>(r.n(4));
  const int pm[] = {1, 5, 20, 80, 250, 500};
  p.permille = pm[r.n(6)];
  if (mode == "c09") {
    // loads spread over the threads, in random order
    std::vector<int> ms;
    for (size_t i = 0; i < modules.size(); i++) if (r.p(85)) ms.push_back(static_cast<int>(i));
    for (size_t i = ms.size(); i > 1; i--) std::swap(ms[i - 1], ms[r.n(i)]);
    for (int m : ms) p.ops.push_back(Op{static_cast<int>(r.n(static_cast<uint64_t>(p.threads))), 'L', m, r.p(50) ? 1 : 0, 0, 0, r.p(50)});
  }
  int nops = static_cast<int>(mode == "c06" ? 2 + r.n(4) : 2 + r.n(7));
  if (r.n(70) == 0) nops = static_cast<int>(mode == "c05" ? 60 + r.n(240) : 20 + r.n(40));   // once in a while a long history
  for (int i = 0; i < nops; i++) {
    Op o;
    o.thread = i < p.threads ? i : static_cast<int>(r.n(static_cast<uint64_t>(p.threads)));
    o.msg = static_cast<int>(r.n(static_cast<uint64_t>(nm)));
    o.kind = type(p.msgs[static_cast<size_t>(o.msg)].type)->validate && r.p(70) ? 'V' : 'C';
    o.priv = r.p(mode == "c06" ? 60 : 25) ? 1 : mode == "c06" || r.p(35) ? 2 : 0;
    o.mapseed = mode == "c06" ? r.next() | 1 : p.msgs[static_cast<size_t>(o.msg)].mapseed;
    o.fail = 0;
    o.from = false;
    size_t at = p.ops.size();
    if (mode == "c09") at = r.n(p.ops.size() + 1);
    p.ops.insert(p.ops.begin() + static_cast<long>(at), o);
  }
  if (mode == "c06") {
    // where to fail: within the number of allocations the call makes alone
    for (auto& o : p.ops) {
      if (!r.p(60)) continue;
      Run q = reference(p, o);
      int64_t n = q.o.res[0].allocs;
      if (n < 1) continue;
      o.fail = 1 + static_cast<int64_t>(r.n(static_cast<uint64_t>(n)));
      o.from = r.p(25);
    }
  }
  return p;
}
uint64_t hash(const Plan& p, const Run& r) {
  uint64_t h = 1469598103934665603ull;
  auto add = [&](const void* d, size_t n) { for (size_t i = 0; i < n; i++) { h ^= static_cast<const unsigned char*>(d)[i]; h *= 1099511628211ull; } };
  for (auto& m : p.msgs) add(m.bytes.data(), m.bytes.size());
  for (auto& o : p.ops) { uint64_t v[] = {static_cast<uint64_t>(o.thread), static_cast<uint64_t>(o.kind), static_cast<uint64_t>(o.msg), o.mapseed, static_cast<uint64_t>(o.fail)}; add(v, sizeof v); }
  for (auto& t : r.o.trace) add(&t, sizeof t);
  return h;
}
}  // namespace

extern "C" {
int __tsan_on_report(void*) { race_count = race_count + 1; return 0; }
const char* __tsan_default_options() { return "halt_on_error=0:exitcode=0:detect_deadlocks=0:report_thread_leaks=0:report_signal_unsafe=0:report_destroy_locked=0:report_atomic_races=1:die_after_fork=0:history_size=4:ignore_noninstrumented_modules=0:atexit_sleep_ms=0:flush_memory_ms=0"; }
const char* __asan_default_options() { return "detect_leaks=0:exitcode=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0:new_delete_type_mismatch=0:quarantine_size_mb=4:malloc_context_size=4"; }
}

int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc < 3) return 2;
  string cmd = argv[1];
  // libstdc++ fills these on first use; not the code under test
  { auto& f = std::use_facet<std::ctype<char>>(std::locale()); for (int c = 0; c < 256; c++) { f.narrow(static_cast<char>(c), 0); f.narrow(static_cast<char>(c), 1); f.widen(static_cast<char>(c)); } }
  add_types();
  int a = 3;
  if (cmd == "search" || cmd == "static" || cmd == "plan") a = 7;
  for (int i = a; i < argc; i++) { string s = argv[i]; size_t c = s.find('='); modules.push_back({s.substr(c + 1), s.substr(0, c)}); }
  if (cmd == "exec" || cmd == "trace") {
    std::ifstream f(argv[2]);
    Plan p = parse(f);
    Run r;
    string w = judge_all(p, &r);
    if (cmd == "trace") {
      // the plan with the schedule that was followed
      p.explicit_sw = true;
      p.sw = r.o.trace;
      std::cout << text(p);
      return 0;
    }
    std::cout << "RESULT " << (w.empty() ? "ok" : w) << "\nHASH " << std::hex << hash(p, r) << std::dec << " steps " << r.o.steps << "\n";
    return 0;
  }
  // search|plan|static MODE BASESEED FIRST STEP SECONDS (static: number of messages)
  string mode = argv[2];
  uint64_t base = strtoull(argv[3], nullptr, 10), i = strtoull(argv[4], nullptr, 10), step = strtoull(argv[5], nullptr, 10);
  double until = atof(argv[6]);
  auto seed_of = [&](uint64_t k) { Rng r{base * 0x2545f4914f6cdd1dull + k}; r.next(); return r.next(); };
  if (cmd == "plan") { std::cout << text(make(mode, seed_of(i))); return 0; }
  if (cmd == "static") {
    // everything linked in: dispatch against the model, in this process
    std::set<string> all = {"cca.proto", "ccb.proto", "ccdeep.proto", "ccommon.proto"};
    sim_direct(1);
    for (uint64_t k = 0; k < static_cast<uint64_t>(until); k++) {
      Plan p = make("c09", seed_of(k));
      for (auto& q : p.msgs) {
        std::unique_ptr<Message> m(build(q, q.mapseed));
        int want = model(*m, all);
        string err;
        bool got = type(q.type)->check(*m, &err);
        st.plans++;
        if (want >= 0 && got != (want == 1)) { std::cout << "FOUND " << k << " CheckMessage(" << q.type << "): " << answer(got, err, "") << ", but the rules say " << (want ? "accept" : "reject") << "\n"; return 1; }
      }
    }
    std::cout << "STATS " << st.plans << std::endl;
    return 0;
  }
  timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (;; i += step) {
    clock_gettime(CLOCK_MONOTONIC, &t);
    if (static_cast<double>(t.tv_sec - t0.tv_sec) + static_cast<double>(t.tv_nsec - t0.tv_nsec) * 1e-9 > until) break;
    Plan p = make(mode, seed_of(i));
    Run run;
    string w = judge_all(p, &run);
    st.plans++;
    st.ops += p.ops.size();
    st.steps += run.o.steps;
    st.switches += run.o.trace.size();
    st.races += run.o.races > 0;
    for (size_t k = 0; k < p.ops.size() && k < run.o.res.size(); k++) { st.faults += run.o.res[k].failed > 0; st.from += run.o.res[k].failed > 0 && p.ops[k].from; st.loads += p.ops[k].kind == 'L'; }
    if (run.o.trace.size() > static_cast<size_t>(p.threads)) st.multi++;
    st.hashes.insert(hash(p, run));
    if (!w.empty()) {
      // the seed again: the same outcome, or the simulation itself is at fault
      std::cout << "FOUND " << i << " " << oneline(w) << "\n" << text(p) << "END\n";
      break;
    }
  }
  std::cout << "STATS {\"plans\":" << st.plans << ",\"runs\":" << forks << ",\"ops\":" << st.ops << ",\"steps\":" << st.steps << ",\"switches\":" << st.switches << ",\"multi\":" << st.multi
            << ",\"faults\":" << st.faults << ",\"faults_persistent\":" << st.from << ",\"loads\":" << st.loads << ",\"accepts\":" << st.accepts << ",\"rejects\":" << st.rejects << ",\"unknown\":" << st.unknown << ",\"exceptions\":" << st.excs
            << ",\"during\":" << st.during << ",\"distinct\":" << st.hashes.size() << "}" << std::endl;
  return 0;
}
