// Executor for concurrent recording: every thread runs its own list of
// operations on one PolyTracker (or bitmap) and reports what it got back.
// No oracle lives here.
#include <array>
#include <atomic>
#include <memory>
#include <optional>
#include <sched.h>
#include <string>
#include <thread>
#include <unordered_map>

#include "taintdag/error.h"
#include "taintdag/outputfile.h"
#include "taintdag/polytracker.h"
#include "taintdag/stream_offset.h"

#include "proto.h"

using namespace taintdag;
using proto::i64;
using proto::u64;
using proto::unhex;
using args_t = std::vector<std::string>;

// Stand-in for the shadow memory. Threads only label memory of their own, so
// that the stand-in does not order them.
static thread_local std::unordered_map<uintptr_t, uint32_t> shadow;
extern "C" void dfsan_set_label(uint32_t label, void *addr, size_t size) {
  for (size_t i = 0; i < size; ++i)
    shadow[reinterpret_cast<uintptr_t>(addr) + i] = label;
}
extern "C" uint32_t dfsan_read_label(const void *addr, size_t size) {
  uint32_t r = 0;
  for (size_t i = 0; i < size; ++i) {
    auto it = shadow.find(reinterpret_cast<uintptr_t>(addr) + i);
    if (it != shadow.end())
      r = it->second;
  }
  return r;
}

struct ErrorExit {
  int code;
};

using BM64 = BitmapSectionBase<5, 1000, uint64_t>;
using BM8 = BitmapSectionBase<5, 1000, uint8_t>;

struct Shared {
  std::unique_ptr<PolyTracker> pt;
  std::unique_ptr<BM64> b64;
  std::unique_ptr<BM8> b8;
  alignas(8) uint8_t m64[BM64::allocation_size], m8[BM8::allocation_size];
};

struct Range {
  label_t first{0}, n{0};
};

struct Worker {
  Shared &sh;
  std::vector<Range> const *prelude{nullptr};
  std::vector<args_t> ops;
  std::vector<size_t> at; // line numbers
  std::vector<std::string> ans;
  std::vector<Range> regs;
  uint64_t seed{1};
  unsigned pace{0};

  explicit Worker(Shared &s) : sh(s) {}

  label_t lab(std::string const &s) {
    size_t dot = s.find('.');
    if (dot == std::string::npos)
      return u64(s);
    auto const &v = s[0] == 'p' && prelude ? *prelude : regs;
    size_t k = u64(s.substr(1, dot - 1));
    if (k >= v.size() || v[k].n == 0)
      return 0;
    return v[k].first + u64(s.substr(dot + 1)) % v[k].n;
  }
  std::string range(std::optional<taint_range_t> r) {
    if (!r)
      return "none";
    regs.back() = {r->first, label_t(r->second - r->first + 1)};
    return std::to_string(r->first) + " " + std::to_string(r->second);
  }
  std::string op(args_t const &a) {
    auto const &o = a[0];
    auto *pt = sh.pt.get();
    regs.emplace_back();
    if (o == "open") {
      pt->open_file(i64(a[1]), unhex(a[2]));
      return "ok";
    }
    if (o == "close") {
      pt->close_file(i64(a[1]));
      return "ok";
    }
    if (o == "src") { // fd off len
      size_t n = u64(a[3]);
      auto mem = std::make_unique<uint8_t[]>(n + 1);
      auto s = range(pt->source_taint(i64(a[1]), mem.get(), util::Offset::from_off_t(i64(a[2])), n));
      shadow.clear();
      return s;
    }
    if (o == "srcv")
      return range(pt->source_taint(i64(a[1]), util::Offset::from_off_t(i64(a[2])), u64(a[3])));
    if (o == "mk") {
      size_t n = u64(a[2]);
      auto mem = std::make_unique<uint8_t[]>(n + 1);
      auto s = range(pt->create_taint_source(unhex(a[1]), {mem.get(), n}));
      shadow.clear();
      return s;
    }
    if (o == "un") {
      auto l = lab(a[1]), r = lab(a[2]);
      if (!l || !r)
        return "skip";
      auto x = pt->union_labels(l, r);
      regs.back() = {x, 1};
      return std::to_string(l) + " " + std::to_string(r) + " " + std::to_string(x);
    }
    if (o == "mark") {
      auto l = lab(a[1]);
      if (!l)
        return "skip";
      pt->affects_control_flow(l);
      return std::to_string(l);
    }
    if (o == "cf") {
      pt->log_tainted_control_flow(u64(a[1]), u64(a[2]));
      return "ok";
    }
    if (o == "ent") {
      pt->enter_function(u64(a[1]));
      return "ok";
    }
    if (o == "lev") {
      pt->leave_function(u64(a[1]));
      return "ok";
    }
    if (o == "fe") {
      // the function table refers to the caller's memory
      auto *s = new std::string(unhex(a[1]));
      return std::to_string(unsigned(pt->function_entry(*s)));
    }
    if (o == "fx") {
      pt->function_exit(u64(a[1]));
      return "ok";
    }
    if (o == "sink") { // fd off label len
      auto l = lab(a[3]);
      pt->taint_sink(i64(a[1]), util::Offset::from_off_t(i64(a[2])), l, u64(a[4]));
      return std::to_string(l);
    }
    if (o == "sinkm") { // fd off label len
      auto l = lab(a[3]);
      size_t n = u64(a[4]);
      auto mem = std::make_unique<uint8_t[]>(n + 1);
      dfsan_set_label(l, mem.get(), n);
      pt->taint_sink(i64(a[1]), util::Offset::from_off_t(i64(a[2])), static_cast<void const *>(mem.get()), n);
      shadow.clear();
      return std::to_string(l);
    }
    if (o == "bset") // width bit
      return std::to_string(int(a[1] == "8" ? sh.b8->set(u64(a[2])) : sh.b64->set(u64(a[2]))));
    if (o == "brange") {
      if (a[1] == "8")
        sh.b8->set_range(u64(a[2]), u64(a[3]));
      else
        sh.b64->set_range(u64(a[2]), u64(a[3]));
      return "ok";
    }
    if (o == "bsize")
      return std::to_string(a[1] == "8" ? sh.b8->size() : sh.b64->size());
    if (o == "bdump")
      return a[1] == "8" ? proto::hex(sh.m8, sizeof sh.m8) : proto::hex(sh.m64, sizeof sh.m64);
    if (o == "end") {
      sh.pt.reset();
      return "ok";
    }
    return "BADOP";
  }
  void run() {
    for (auto const &a : ops) {
      std::string r;
      try {
        r = op(a);
      } catch (ErrorExit const &) {
        r = "ERR";
      }
      ans.push_back(r);
      if (pace) {
        seed = seed * 6364136223846793005ull + 1442695040888963407ull;
        auto k = (seed >> 33) % (pace + 1);
        if (k == pace)
          sched_yield();
        else
          for (volatile unsigned i = 0; i < k; i = i + 1) {
          }
      }
    }
  }
};

// Rounds of one operation per thread, released together: the threads collide
// on the same data as often as possible. Prints, per round, what each thread
// passed and got, and what the section holds afterwards.
struct Burst {
  size_t nt, rounds;
  uint64_t seed;
  std::atomic<uint64_t> phase{0}, done{0};
  std::vector<std::array<uint64_t, 4>> out; // argument, argument, result, result

  uint64_t rnd() {
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    return seed >> 33;
  }
  template <typename F, typename G, typename H> void go(F prep, G op, H fin) {
    out.resize(nt);
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (uint64_t k = 1; k <= rounds; ++k) {
          for (unsigned spin = 0; phase.load(std::memory_order_acquire) < k;)
            if (++spin > 20000)
              sched_yield();
          op(t, k);
          done.fetch_add(1, std::memory_order_acq_rel);
        }
      });
    for (uint64_t k = 1; k <= rounds; ++k) {
      prep(k);
      phase.store(k, std::memory_order_release);
      for (unsigned spin = 0; done.load(std::memory_order_acquire) < k * nt;)
        if (++spin > 20000)
          sched_yield();
      fin(k);
    }
    for (auto &t : th)
      t.join();
  }
};

template <typename B> static std::string burst_bits(Burst &b) {
  alignas(8) static uint8_t mem[B::allocation_size];
  std::unique_ptr<B> bm;
  std::string s;
  b.go(
      [&](uint64_t) {
        memset(mem, 0, sizeof mem);
        bm = std::make_unique<B>(std::span<uint8_t>{mem, sizeof mem});
        uint64_t base = b.rnd() % 900, spread = b.rnd() % 3;
        for (auto &o : b.out) {
          o[0] = base + b.rnd() % (spread == 0 ? 4 : spread == 1 ? 20 : 99);
          o[1] = b.rnd() % 4 == 0 ? 0 : b.rnd() % 3 == 0 ? 1 + b.rnd() % (1000 - o[0]) : 1;
        }
      },
      [&](size_t t, uint64_t) {
        auto &o = b.out[t];
        if (o[1] == 0)
          o[2] = bm->set(o[0]);
        else
          bm->set_range(o[0], o[1]);
      },
      [&](uint64_t) {
        for (auto &o : b.out)
          s += std::to_string(o[0]) + " " + std::to_string(o[1]) + " " + std::to_string(o[2]) + " ";
        s += std::to_string(bm->size()) + " " + proto::hex(mem, sizeof mem) + "\n";
      });
  return s;
}

static std::string burst_stream(Burst &b) {
  std::unique_ptr<StreamOffset<8>> so;
  std::string s;
  b.go(
      [&](uint64_t k) {
        if (k % 8 == 1)
          so = std::make_unique<StreamOffset<8>>();
        for (auto &o : b.out) {
          o[0] = b.rnd() % 4 ? k % 8 : b.rnd() % 8;
          o[1] = b.rnd() % 4;
        }
      },
      [&](size_t t, uint64_t) { b.out[t][2] = so->increase(b.out[t][0], b.out[t][1]); },
      [&](uint64_t) {
        for (auto &o : b.out)
          s += std::to_string(o[0]) + " " + std::to_string(o[1]) + " " + std::to_string(o[2]) + " ";
        s += "\n";
      });
  return s;
}

static std::string burst_pt(Burst &b, std::string const &kind, std::string const &path) {
  auto pt = std::make_unique<PolyTracker>(path);
  std::string s;
  pt->open_file(9, "stream");
  pt->open_file(8, "file");
  auto base = pt->source_taint(8, util::Offset::from_off_t(0), 64)->first;
  std::vector<std::string> names;
  for (size_t i = 0; i <= b.rounds; ++i)
    names.push_back("fn" + std::to_string(i / 2));
  // each call passes memory of its own
  std::vector<std::vector<std::string>> own(b.nt, names);
  b.go(
      [&](uint64_t) {
        uint64_t l = b.rnd() % 64, r = b.rnd() % 64;
        bool same = b.rnd() % 2;
        for (auto &o : b.out) {
          o[0] = kind == "un" ? base + (same ? l : b.rnd() % 64) : 0;
          o[1] = kind == "un" ? base + (same ? r : b.rnd() % 64) : 1 + b.rnd() % 3;
        }
      },
      [&](size_t t, uint64_t k) {
        auto &o = b.out[t];
        if (kind == "src") {
          auto r = pt->source_taint(9, util::Offset::from_off_t(-1), o[1]);
          o[2] = r ? r->first : 0;
          o[3] = r ? r->second : 0;
        } else if (kind == "fn") {
          o[2] = pt->function_entry(own[t][k]);
          o[3] = k / 2;
        } else {
          o[2] = pt->union_labels(o[0], o[1]);
        }
      },
      [&](uint64_t) {
        for (auto &o : b.out)
          s += std::to_string(o[0]) + " " + std::to_string(o[1]) + " " + std::to_string(o[2]) + " " + std::to_string(o[3]) + " ";
        s += "\n";
      });
  pt.reset();
  return s;
}

int main() {
  spdlog::set_level(spdlog::level::off);
  error_function = [](int c) { throw ErrorExit{c}; };
  std::string line;
  while (proto::read_line(line)) {
    // CASE n MT path threads seed pace; lines: "p op..." first, "<t> op...", "e op..." last
    auto h = proto::split(line);
    if (h.size() < 7 || h[0] != "CASE")
      return 3;
    size_t n = u64(h[1]);
    if (h[2] == "BURST") { // kind threads seed rounds path
      Burst b{u64(h[4]), u64(h[6]), u64(h[5])};
      std::string r = h[3] == "b8"    ? burst_bits<BM8>(b)
                      : h[3] == "b64" ? burst_bits<BM64>(b)
                      : h[3] == "so"  ? burst_stream(b)
                                      : burst_pt(b, h[3], unhex(h[7]));
      r += "DONE\n";
      fwrite(r.data(), 1, r.size(), stdout);
      fflush(stdout);
      continue;
    }
    Shared sh;
    memset(sh.m64, 0, sizeof sh.m64);
    memset(sh.m8, 0, sizeof sh.m8);
    size_t nt = u64(h[4]);
    std::vector<std::unique_ptr<Worker>> w;
    Worker pre(sh), post(sh);
    for (size_t i = 0; i < nt; ++i) {
      w.push_back(std::make_unique<Worker>(sh));
      w[i]->prelude = &pre.regs;
      w[i]->seed = u64(h[5]) + i * 7919;
      w[i]->pace = u64(h[6]);
    }
    post.prelude = &pre.regs;
    for (size_t i = 0; i < n; ++i) {
      if (!proto::read_line(line))
        return 3;
      auto a = proto::split(line);
      auto t = a[0];
      a.erase(a.begin());
      Worker &k = t == "p" ? pre : t == "e" ? post : *w.at(u64(t));
      k.ops.push_back(a);
      k.at.push_back(i);
    }
    sh.b64 = std::make_unique<BM64>(std::span<uint8_t>{sh.m64, sizeof sh.m64});
    sh.b8 = std::make_unique<BM8>(std::span<uint8_t>{sh.m8, sizeof sh.m8});
    if (h[3] != "-")
      sh.pt = std::make_unique<PolyTracker>(unhex(h[3]));
    pre.run();
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (auto &k : w)
      th.emplace_back([&ready, &k, nt] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nt) {
        }
        k->run();
      });
    for (auto &t : th)
      t.join();
    post.run();
    sh.pt.reset();
    std::vector<std::string> res(n);
    auto take = [&](Worker &k) {
      for (size_t i = 0; i < k.at.size(); ++i)
        res[k.at[i]] = i < k.ans.size() ? k.ans[i] : "MISSING";
    };
    take(pre);
    take(post);
    for (auto &k : w)
      take(*k);
    std::string out;
    for (auto &r : res)
      out += r + "\n";
    out += "DONE\n";
    fwrite(out.data(), 1, out.size(), stdout);
    fflush(stdout);
  }
  return 0;
}
