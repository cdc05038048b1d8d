// C31: version numbers
#include "vf.h"
#include "podio/podioVersion.h"
#include <array>
#include <string>

using podio::version::Version;
namespace {
constexpr uint16_t GRID[] = {0, 1, 2, 9, 10, 99, 127, 128, 255, 256, 999, 32767, 32768, 65534, 65535};
constexpr int G = sizeof(GRID) / sizeof(GRID[0]);
constexpr int N = G * G * G;

struct Case {
  uint16_t a, b, c;
};
constexpr Case at(int i) { return {GRID[i / (G * G)], GRID[(i / G) % G], GRID[i % G]}; }
// PODIO_VERSION(major, minor, patch) of the grid, in order; the macro needs literals
constexpr uint64_t ENCODED[] = {
#include "c31_table.inc"
};
static_assert(sizeof(ENCODED) / sizeof(ENCODED[0]) == N);
consteval std::array<Version, N> decodeAll() {
  std::array<Version, N> r{};
  for (int i = 0; i < N; ++i) {
    r[i] = podio::version::decode_version(ENCODED[i]);
  }
  return r;
}
constexpr auto DECODED = decodeAll();
int lex(const Case& x, const Case& y) {
  if (x.a != y.a) {
    return x.a < y.a ? -1 : 1;
  }
  if (x.b != y.b) {
    return x.b < y.b ? -1 : 1;
  }
  return x.c == y.c ? 0 : x.c < y.c ? -1 : 1;
}
void checkOne(uint16_t a, uint16_t b, uint16_t c) {
  const uint64_t enc = (uint64_t(a) << 32) | (uint64_t(b) << 16) | c;
  VF_EQ(uint64_t(PODIO_MAJOR_VERSION(enc)), uint64_t(a), "major");
  VF_EQ(uint64_t(PODIO_MINOR_VERSION(enc)), uint64_t(b), "minor");
  VF_EQ(uint64_t(PODIO_PATCH_VERSION(enc)), uint64_t(c), "patch");
  const Version v{a, b, c};
  const std::string want = std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
  std::ostringstream os;
  os << v;
  VF_EQ(os.str(), want, "printed");
  VF_EQ(static_cast<std::string>(v), want, "string");
}
} // namespace

// all values of each part
VF_SCENARIO(parts, 1, 1) {
  const int which = vf::choose(3);
  const uint16_t few[] = {0, 1, 99, 256, 65535};
  const uint16_t o1 = vf::pick(few), o2 = vf::pick(few);
  for (int x = 0; x < 65536; ++x) {
    vf::step();
    const uint16_t u = static_cast<uint16_t>(x);
    which == 0 ? checkOne(u, o1, o2) : which == 1 ? checkOne(o1, u, o2) : checkOne(o1, o2, u);
  }
}
VF_SCENARIO(decoding, 1, 1) {
  const int i = vf::choose(N);
  const auto c = at(i);
  const Version v{c.a, c.b, c.c};
  VF_EQ(ENCODED[i], (uint64_t(c.a) << 32) | (uint64_t(c.b) << 16) | c.c, "encoding");
  for (const auto* d : {&DECODED[i]}) {
    VF_EQ(d->major, c.a, "decode");
    VF_EQ(d->minor, c.b, "decode");
    VF_EQ(d->patch, c.c, "decode");
    VF_ASSERT(*d == v, "decode");
  }
  checkOne(c.a, c.b, c.c);
  vf::step();
}
VF_SCENARIO_OPT(order, 1, 1, 1, true) {
  const int i = vf::choose(N);
  const auto x = at(i);
  const Version v{x.a, x.b, x.c};
  for (int j = 0; j < N; ++j) {
    const auto y = at(j);
    const Version w{y.a, y.b, y.c};
    const int want = lex(x, y);
    VF_EQ(v < w, want < 0, "less");
    VF_EQ(v <= w, want <= 0, "less-equal");
    VF_EQ(v > w, want > 0, "greater");
    VF_EQ(v >= w, want >= 0, "greater-equal");
    VF_EQ(v == w, want == 0, "equal");
    VF_EQ(v != w, want != 0, "not-equal");
    const uint64_t e = ENCODED[i], f = ENCODED[j];
    VF_ASSERT((e < f) == (want < 0) && (e == f) == (want == 0), "encoding-order");
  }
  vf::step(N);
}
VF_SCENARIO(build, 1, 1) {
  constexpr Version v = podio::version::build_version;
  VF_EQ(static_cast<std::string>(v), std::string(VF_VERSION), "build-version");
  constexpr Version d = podio::version::decode_version(PODIO_BUILD_VERSION);
  VF_ASSERT(d == v, "build-version-encoding");
  VF_EQ(uint64_t(podio_VERSION), uint64_t(PODIO_BUILD_VERSION), "build-version-encoding");
  VF_ASSERT(Version{} == (Version{0, 0, 0}), "default");
  vf::step();
}
