// Executor for the taintdag library: runs generated operation sequences
// against the real classes and reports what they return. No oracle lives here.
#include <cstdarg>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sys/mman.h>
#include <unordered_map>

#include "taintdag/error.h"
#include "taintdag/outputfile.h"
#include "taintdag/polytracker.h"

#include "proto.h"

using namespace taintdag;
using proto::hex;
using proto::i64;
using proto::u64;
using proto::unhex;
using args_t = std::vector<std::string>;

// ---- stand-in for the DFSan shadow memory -------------------------------
static std::unordered_map<uintptr_t, uint32_t> shadow;
extern "C" void dfsan_set_label(uint32_t label, void *addr, size_t size) {
  for (size_t i = 0; i < size; ++i) {
    auto a = reinterpret_cast<uintptr_t>(addr) + i;
    if (label)
      shadow[a] = label;
    else
      shadow.erase(a);
  }
}
extern "C" uint32_t dfsan_read_label(const void *addr, size_t size) {
  // Only single bytes are read by the library.
  uint32_t r = 0;
  for (size_t i = 0; i < size; ++i) {
    auto it = shadow.find(reinterpret_cast<uintptr_t>(addr) + i);
    if (it != shadow.end())
      r = it->second;
  }
  return r;
}

struct ErrorExit {
  int code;
};

static std::string sf(const char *f, ...) {
  char b[512];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}

static util::Offset mkoffset(std::string const &s) { return util::Offset::from_off_t(i64(s)); }

// ---- mode PT: the PolyTracker class writing a trace file -----------------
struct ModePT {
  std::unique_ptr<PolyTracker> pt;
  std::set<std::string> names; // the function table refers to caller memory
  std::vector<std::unique_ptr<uint8_t[]>> arena;

  // Labels returned so far: result (first label) of each operation, 0 if none.
  std::vector<label_t> regs;
  label_t maxlabel{0};

  ModePT(args_t const &a) { pt = std::make_unique<PolyTracker>(unhex(a.at(0))); }

  // "n": the label n; "$k.j": result of operation k plus j, clamped to existing
  // labels; "%n": n modulo the existing labels; "~n": the n-th latest label.
  label_t lab(std::string const &s) {
    auto clamp = [&](int64_t v) { return label_t(v < 1 ? 1 : v > int64_t(maxlabel) ? int64_t(maxlabel) : v); };
    if (maxlabel == 0)
      return 0;
    if (s[0] == '$') {
      size_t dot = s.find('.');
      size_t k = u64(s.substr(1));
      return clamp((k < regs.size() ? int64_t(regs[k]) : 1) + i64(s.substr(dot + 1)));
    }
    if (s[0] == '%')
      return maxlabel ? 1 + u64(s.substr(1)) % maxlabel : 0;
    if (s[0] == '~')
      return maxlabel ? clamp(int64_t(maxlabel) - int64_t(u64(s.substr(1)) % maxlabel)) : 0;
    return u64(s);
  }
  std::string range(std::optional<taint_range_t> r) {
    if (!r)
      return "none";
    regs.back() = r->first;
    if (r->second > maxlabel)
      maxlabel = r->second;
    return sf("%u %u", r->first, r->second);
  }

  std::string labels_of(uint8_t const *p, size_t n) {
    std::string r;
    for (size_t i = 0; i < n; ++i)
      r += " " + std::to_string(dfsan_read_label(p + i, 1));
    return r;
  }
  std::string op(args_t const &a) {
    auto const &o = a[0];
    regs.push_back(0);
    if (o == "open") {
      pt->open_file(i64(a[1]), unhex(a[2]));
      return "ok";
    }
    if (o == "close") {
      pt->close_file(i64(a[1]));
      return "ok";
    }
    if (o == "src") { // fd off len
      size_t n = u64(a[3]);
      auto mem = std::make_unique<uint8_t[]>(n + 2);
      auto off = mkoffset(a[2]);
      auto r = pt->source_taint(i64(a[1]), mem.get() + 1, off, n);
      auto s = range(r) + " |" + labels_of(mem.get(), n + 2);
      dfsan_set_label(0, mem.get(), n + 2);
      return s;
    }
    if (o == "srcv") {
      auto off = mkoffset(a[2]);
      return range(pt->source_taint(i64(a[1]), off, u64(a[3])));
    }
    if (o == "mk") { // name len
      size_t n = u64(a[2]);
      auto mem = std::make_unique<uint8_t[]>(n + 2);
      auto r = pt->create_taint_source(unhex(a[1]), {mem.get() + 1, n});
      auto s = range(r) + " |" + labels_of(mem.get(), n + 2);
      dfsan_set_label(0, mem.get(), n + 2);
      return s;
    }
    if (o == "un")
    {
      auto l = lab(a[1]), r = lab(a[2]);
      if (l == 0 || r == 0)
        return "skip";
      auto x = pt->union_labels(l, r);
      regs.back() = x;
      if (x > maxlabel)
        maxlabel = x;
      return sf("%u %u %u", l, r, x);
    }
    if (o == "mark") {
      auto l = lab(a[1]);
      if (l == 0)
        return "skip";
      pt->affects_control_flow(l);
      return sf("%u", l);
    }
    if (o == "cf") {
      pt->log_tainted_control_flow(u64(a[1]), u64(a[2]));
      return "ok";
    }
    if (o == "ent") {
      pt->enter_function(u64(a[1]));
      return "ok";
    }
    if (o == "lev") {
      pt->leave_function(u64(a[1]));
      return "ok";
    }
    if (o == "fe") {
      auto it = names.insert(unhex(a[1])).first;
      return sf("%u", unsigned(pt->function_entry(*it)));
    }
    if (o == "fx") {
      pt->function_exit(u64(a[1]));
      return "ok";
    }
    if (o == "sinkl") { // fd off label len
      auto off = mkoffset(a[2]);
      pt->taint_sink(i64(a[1]), off, lab(a[3]), u64(a[4]));
      return sf("%u", lab(a[3]));
    }
    if (o == "sinkm") { // fd off labels...
      size_t n = a.size() - 3;
      auto mem = std::make_unique<uint8_t[]>(n + 1);
      std::string res = "L";
      for (size_t i = 0; i < n; ++i) {
        auto l = a[3 + i] == "0" ? 0 : lab(a[3 + i]);
        dfsan_set_label(l, mem.get() + i, 1);
        res += " " + std::to_string(l);
      }
      auto off = mkoffset(a[2]);
      pt->taint_sink(i64(a[1]), off, static_cast<void const *>(mem.get()), n);
      dfsan_set_label(0, mem.get(), n);
      return res;
    }
    if (o == "end") {
      pt.reset();
      return "ok";
    }
    return "BADOP";
  }
};

// ---- mode ENC: record encoding -------------------------------------------
struct ModeENC {
  ModeENC(args_t const &) {}
  static std::string show(Taint const &t) {
    if (auto s = std::get_if<SourceTaint>(&t))
      return sf("S %u %lld %d", unsigned(s->index), (long long)s->offset, int(s->affects_control_flow));
    if (auto r = std::get_if<RangeTaint>(&t))
      return sf("R %u %u %d", r->first, r->last, int(r->affects_control_flow));
    auto u = std::get<UnionTaint>(t);
    return sf("U %u %u %d", u.higher, u.lower, int(u.affects_control_flow));
  }
  std::string op(args_t const &a) {
    auto const &o = a[0];
    storage_t v;
    if (o == "S")
      v = encode(SourceTaint{source_index_t(u64(a[1])), source_offset_t(i64(a[2])), a[3] == "1"});
    else if (o == "R")
      v = encode(RangeTaint{label_t(u64(a[1])), label_t(u64(a[2])), a[3] == "1"});
    else if (o == "U")
      v = encode(UnionTaint{label_t(u64(a[1])), label_t(u64(a[2])), a[3] == "1"});
    else if (o == "off") { // offset acceptance
      auto f = util::Offset::from_off_t(i64(a[1]));
      return f.valid() ? sf("%lld", (long long)*f.value()) : std::string("invalid");
    } else
      return "BADOP";
    auto w = add_affects_control_flow(v);
    return sf("%llu ", (unsigned long long)v) + show(decode(v)) + sf(" %d %d ", int(is_source_taint(v)), int(check_affects_control_flow(v))) +
           show(decode(w)) + sf(" %d %d", int(check_affects_control_flow(w)), int(equal_ignore_cf(v, w)));
  }
};

// ---- mode BM: bitmap sections --------------------------------------------
template <typename B, size_t Cap> struct BM {
  using T = BitmapSectionBase<5, Cap, B>;
  // exact-size heap memory so that AddressSanitizer sees any stray access
  std::unique_ptr<typename T::atomic_t[]> mem;
  std::unique_ptr<T> t;
  BM(bool dirty) {
    mem.reset(static_cast<typename T::atomic_t *>(::operator new(T::allocation_size)));
    memset((void *)mem.get(), 0, T::allocation_size);
    (void)dirty;
    t = std::make_unique<T>(std::span<uint8_t>{reinterpret_cast<uint8_t *>(mem.get()), T::allocation_size});
  }
  ~BM() { ::operator delete(mem.release()); }
  std::string op(args_t const &a) {
    if (a[0] == "set")
      return sf("%d", int(t->set(u64(a[1]))));
    if (a[0] == "range") {
      t->set_range(u64(a[1]), u64(a[2]));
      return "ok";
    }
    if (a[0] == "get")
      return sf("%d", int(t->is_set(u64(a[1]))));
    if (a[0] == "size")
      return sf("%zu", t->size());
    if (a[0] == "dump")
      return hex(mem.get(), T::allocation_size) + sf(" %zu", size_t(T::allocation_size));
    return "BADOP";
  }
};
struct ModeBM {
  std::function<std::string(args_t const &)> f;
  template <typename B, size_t C> void use() {
    auto p = std::make_shared<BM<B, C>>(false);
    f = [p](args_t const &a) { return p->op(a); };
  }
  template <typename B> void cap(size_t c) {
    switch (c) {
    case 1: use<B, 1>(); break;
    case 7: use<B, 7>(); break;
    case 8: use<B, 8>(); break;
    case 64: use<B, 64>(); break;
    case 65: use<B, 65>(); break;
    case 130: use<B, 130>(); break;
    case 192: use<B, 192>(); break;
    case 1000: use<B, 1000>(); break;
    default: abort();
    }
  }
  ModeBM(args_t const &a) {
    size_t c = u64(a[1]);
    switch (u64(a[0])) {
    case 8: cap<uint8_t>(c); break;
    case 16: cap<uint16_t>(c); break;
    case 32: cap<uint32_t>(c); break;
    case 64: cap<uint64_t>(c); break;
    default: abort();
    }
  }
  std::string op(args_t const &a) { return f(a); }
};

// ---- mode DQ: the traversal queue ----------------------------------------
struct ModeDQ {
  utils::LabelDeq<32> q32;
  utils::LabelDeq<2> q2;
  utils::LabelDeq<5> q5;
  int n;
  ModeDQ(args_t const &a) : n(i64(a[0])) {}
  template <typename Q> std::string run(Q &q, args_t const &a) {
    if (a[0] == "push") {
      q.push_back(u64(a[1]));
      return "ok";
    }
    if (a[0] == "pop")
      return q.empty() ? std::string("empty") : sf("%u", q.pop_front());
    return sf("%d", int(q.empty()));
  }
  std::string op(args_t const &a) { return n == 2 ? run(q2, a) : n == 5 ? run(q5, a) : run(q32, a); }
};

// ---- mode SEC: sections over exact-size memory, for capacity limits -------
struct FakeOF {
  StringTable *st;
  template <typename T> T &section() { return *st; }
};
struct ModeSEC {
  struct Mem {
    uint8_t *p;
    size_t n;
    explicit Mem(size_t n) : p(static_cast<uint8_t *>(::operator new(n, std::align_val_t(64)))), n(n) { memset(p, 0, n); }
    ~Mem() { ::operator delete(p, std::align_val_t(64)); }
    std::span<uint8_t> span() { return {p, n}; }
  };
  Mem ms, msrc, mfn, mlab, mev, mcf, msink;
  int dummy{0};
  StringTable st;
  FakeOF of;
  Sources src;
  Functions fns;
  Labels labels;
  Events events;
  ControlFlowLog cfl;
  TaintSink sink;
  std::set<std::string> names;

  // args: string bytes, #sources, #functions, #labels, #events, cflog bytes, #sinks
  ModeSEC(args_t const &a)
      : ms(u64(a[0])), msrc(u64(a[1]) * sizeof(SourceEntry)), mfn(u64(a[2]) * sizeof(Function)),
        mlab(u64(a[3]) * sizeof(storage_t)), mev(u64(a[4]) * sizeof(Event)), mcf(u64(a[5])),
        msink(u64(a[6]) * sizeof(SinkLogEntry)), st(SectionArg<int>{dummy, ms.span()}), of{&st},
        src(SectionArg<FakeOF>{of, msrc.span()}), fns(SectionArg<FakeOF>{of, mfn.span()}),
        labels(SectionArg<int>{dummy, mlab.span()}), events(SectionArg<int>{dummy, mev.span()}),
        cfl(SectionArg<int>{dummy, mcf.span()}), sink(SectionArg<int>{dummy, msink.span()}) {}

  std::string op(args_t const &a) {
    auto const &o = a[0];
    if (o == "str") {
      auto r = st.add_string(unhex(a[1]));
      return r ? sf("%u", unsigned(*r)) : "none";
    }
    if (o == "source") {
      auto r = src.add_source(unhex(a[1]), i64(a[2]), u64(a[3]));
      return r ? sf("%u", unsigned(*r)) : "none";
    }
    if (o == "idx") {
      auto r = src.mapping_idx(i64(a[1]));
      return r ? sf("%u", unsigned(*r)) : "none";
    }
    if (o == "fn") {
      auto it = names.insert(unhex(a[1])).first;
      auto r = fns.add_mapping(*it);
      return r ? sf("%u", unsigned(*r)) : "none";
    }
    if (o == "lab") {
      auto r = labels.create_source_labels(u64(a[1]), i64(a[2]), u64(a[3]));
      return sf("%u %u", r.first, r.second);
    }
    if (o == "un") {
      if (labels.count() < 2)
        return "skip";
      label_t l = 1 + u64(a[1]) % (labels.count() - 1), r = 1 + u64(a[2]) % (labels.count() - 1);
      return sf("%u %u %u", l, r, labels.union_taint(l, r));
    }
    if (o == "ev") {
      events.log_fn_event(a[1] == "0" ? Event::kind_t::entry : Event::kind_t::exit, u64(a[2]));
      return "ok";
    }
    if (o == "ent") {
      cfl.enter_function(u64(a[1]));
      return "ok";
    }
    if (o == "lev") {
      cfl.leave_function(u64(a[1]));
      return "ok";
    }
    if (o == "cf") {
      cfl.tainted_control_flow(u64(a[1]), u64(a[2]));
      return "ok";
    }
    if (o == "sink") {
      sink.log_single(i64(a[1]), u64(a[2]), u64(a[3]));
      return "ok";
    }
    if (o == "dump") // used bytes and contents of every section
      return sf("%zu ", st.size()) + hex(ms.p, ms.n) + sf(" %zu ", src.size()) + hex(msrc.p, msrc.n) +
             sf(" %zu ", fns.size()) + hex(mfn.p, mfn.n) + sf(" %zu ", labels.size()) + hex(mlab.p, mlab.n) +
             sf(" %zu ", events.size()) + hex(mev.p, mev.n) + sf(" %zu ", cfl.size()) + hex(mcf.p, mcf.n) +
             sf(" %zu ", sink.size()) + hex(msink.p, msink.n);
    if (o == "sizes")
      return sf("%zu %zu %zu %zu %zu %zu %zu", st.size(), src.size(), fns.size(), labels.size(), events.size(), cfl.size(),
                sink.size());
    if (o == "strings") {
      std::string r = "S";
      for (auto it = st.begin(); it != st.end(); ++it)
        r += " " + hex((*it).data(), (*it).size());
      return r;
    }
    return "BADOP";
  }
};

// ---------------------------------------------------------------------------
template <typename M> static void run_case(std::vector<std::string> const &lines, args_t const &args) {
  std::unique_ptr<M> m;
  bool failed = false;
  try {
    m = std::make_unique<M>(args);
  } catch (ErrorExit const &) {
    failed = true;
  }
  for (auto const &l : lines) {
    std::string r;
    if (failed) {
      r = "CTORERR";
    } else {
      try {
        r = m->op(proto::split(l));
      } catch (ErrorExit const &) {
        r = "ERR";
      }
    }
    r.push_back('\n');
    fwrite(r.data(), 1, r.size(), stdout);
  }
}

int main() {
  spdlog::set_level(spdlog::level::off);
  error_function = [](int c) { throw ErrorExit{c}; };
  std::string line;
  while (proto::read_line(line)) {
    auto a = proto::split(line);
    if (a.size() < 3 || a[0] != "CASE")
      return 3;
    size_t n = u64(a[1]);
    std::vector<std::string> lines(n);
    for (auto &l : lines)
      if (!proto::read_line(l))
        return 3;
    args_t args(a.begin() + 3, a.end());
    shadow.clear();
    if (a[2] == "PT")
      run_case<ModePT>(lines, args);
    else if (a[2] == "ENC")
      run_case<ModeENC>(lines, args);
    else if (a[2] == "BM")
      run_case<ModeBM>(lines, args);
    else if (a[2] == "DQ")
      run_case<ModeDQ>(lines, args);
    else if (a[2] == "SEC")
      run_case<ModeSEC>(lines, args);
    else
      return 3;
    fputs("DONE\n", stdout);
    fflush(stdout);
  }
  return 0;
}
