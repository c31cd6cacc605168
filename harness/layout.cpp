// Executor for C05: a pool of OutputFile instantiations whose section counts,
// sizes and alignments come from a compile-time hash of LAYOUT_SEED.
#include <array>
#include <cstdarg>
#include <functional>
#include <memory>
#include <span>
#include <stdexcept>
#include <tuple>

#include "taintdag/bitmap_section.h"
#include "taintdag/error.h"
#include "taintdag/outputfile.h"
#include "taintdag/section.h"
#include "taintdag/string_table.h"

#include "proto.h"

#ifndef LAYOUT_SEED
#define LAYOUT_SEED 1
#endif

using namespace taintdag;
using proto::u64;
using proto::unhex;
using args_t = std::vector<std::string>;

static constexpr uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull + LAYOUT_SEED * 0x2545F4914F6CDD1Dull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static constexpr uint64_t h(uint64_t layout, uint64_t i, uint64_t what) {
  return mix(mix(mix(layout) + i) + what);
}
static constexpr size_t nsections(size_t l) { return l == 0 ? 1 : 1 + h(l, 99, 0) % 8; }
static constexpr size_t align_of_(size_t l, size_t i) {
  size_t k = h(l, i, 1) % 16;
  return k < 13 ? size_t(1) << (k % 7) : k == 13 ? 256 : k == 14 ? 1024 : 4096;
}
static constexpr size_t alloc_of_(size_t l, size_t i) {
  size_t k = h(l, i, 2) % 8, v = h(l, i, 3);
  return k == 0 ? 1 + v % 3 : k == 1 ? 1 + v % 16 : k < 5 ? 1 + v % 200 : k < 7 ? 1 + v % 5000 : 1 + v % 300000;
}

static bool g_bad_range;
template <size_t L, size_t I> struct TSec : SectionBase {
  static constexpr uint8_t tag{uint8_t(1 + h(L, I, 4) % 200)};
  static constexpr size_t align_of{align_of_(L, I)};
  static constexpr size_t allocation_size{alloc_of_(L, I)};
  template <typename OF> TSec(SectionArg<OF> a) : SectionBase(a.range) {
    if (a.range.size() != allocation_size || reinterpret_cast<uintptr_t>(a.range.data()) % align_of != 0)
      g_bad_range = true;
  }
  bool put(size_t n, uint8_t v) {
    if (auto c = write(n)) {
      for (auto &b : c->mem)
        b = v;
      return true;
    }
    return false;
  }
};

// args of op "run": path, bytes per section (as many as given; modulo capacity + 1)
template <size_t L, size_t... I> static std::string run(args_t const &a, std::index_sequence<I...>) {
  using OF = OutputFile<TSec<L, I>...>;
  g_bad_range = false;
  std::string r = "n " + std::to_string(sizeof...(I));
  {
    OF of{std::filesystem::path(unhex(a[1]))};
    size_t k = 0;
    auto one = [&](auto &sec, size_t i) {
      using S = std::decay_t<decltype(sec)>;
      size_t want = (a.size() > 2 + i ? u64(a[2 + i]) : 0) % (S::allocation_size + 1);
      // several writes of growing size
      size_t done = 0, step = 1;
      while (done < want) {
        size_t n = std::min(step, want - done);
        if (!sec.put(n, uint8_t(i + 1)))
          return;
        done += n;
        step = step * 2 + 1;
      }
      r += " | " + std::to_string(S::tag) + " " + std::to_string(S::align_of) + " " + std::to_string(S::allocation_size) +
           " " + std::to_string(want) + " " + std::to_string(sec.size()) + " " + (sec.put(S::allocation_size - want + 1, 9) ? "over" : "full");
    };
    (one(of.template section<TSec<L, I>>(), k++), ...);
  }
  return r + (g_bad_range ? " BADRANGE" : " ok");
}

using fn_t = std::string (*)(args_t const &);
static constexpr size_t N = 96;
template <size_t L> static std::string runl(args_t const &a) { return run<L>(a, std::make_index_sequence<nsections(L)>{}); }
template <size_t... L> static constexpr std::array<fn_t, N> table(std::index_sequence<L...>) { return {&runl<L>...}; }
static constexpr std::array<fn_t, N> fns = table(std::make_index_sequence<N>{});

extern "C" void dfsan_set_label(uint32_t, void *, size_t) {}
extern "C" uint32_t dfsan_read_label(const void *, size_t) { return 0; }

int main() {
  spdlog::set_level(spdlog::level::off);
  error_function = [](int c) { throw c; };
  std::string line;
  while (proto::read_line(line)) {
    auto a = proto::split(line);
    size_t n = u64(a[1]);
    for (size_t i = 0; i < n; ++i) {
      if (!proto::read_line(line))
        return 3;
      auto b = proto::split(line); // layout path amounts...
      std::string r;
      try {
        r = fns[u64(b[0]) % N](b);
      } catch (int) {
        r = "ERR";
      }
      puts(r.c_str());
    }
    puts("DONE");
    fflush(stdout);
  }
}
