// Floating point encodings (generic/type_helpers.h).
#include <cstring>
#include "harness.h"
#include "mpact/sim/generic/type_helpers.h"
using namespace mpact::sim::generic;

template <typename T, typename U, int E, int H, int L>
struct Ty {
  static T make(long long sg, long long e, long long hi, long long lo) {
    U u = ((U)sg << (E + H + L)) | ((U)e << (H + L)) | ((U)hi << L) | (U)lo;
    T t;
    static_assert(sizeof(T) == sizeof(U));
    memcpy(&t, &u, sizeof(t));
    return t;
  }
  static void cls(long long sg, long long e, long long hi, long long lo, vh::Out& o) {
    T t = make(sg, e, hi, lo);
    using F = FPTypeInfo<T>;
    o.b(F::IsInf(t)).b(F::IsNaN(t)).b(F::IsSNaN(t)).b(F::IsQNaN(t)).b(F::SignBit(t));
  }
  static void f(uint64_t u, vh::Out& o) {
    o.open().i((u >> (E + H + L)) & 1).i((u >> (H + L)) & ((1u << E) - 1)).i((u >> L) & ((1ull << H) - 1)).i(u & ((1ull << L) - 1)).close();
  }
  static void con(vh::Out& o) {
    using F = FPTypeInfo<T>;
    o.i(F::kBitSize).i(F::kExpSize).i(F::kExpBias).i(F::kSigSize);
    f(F::kPosInf, o); f(F::kNegInf, o); f(F::kCanonicalNaN, o); f(F::kExpMask, o); f(F::kSigMask, o); f(F::kInfMask, o);
    o.b(IsMpactFp<T>::value && sizeof(typename F::UIntType) == sizeof(T) && sizeof(typename F::IntType) == sizeof(T));
  }
};
using H_ = Ty<HalfFP, uint16_t, 5, 5, 5>;
using F_ = Ty<float, uint32_t, 8, 12, 11>;
using D_ = Ty<double, uint64_t, 11, 26, 26>;
template <typename T> using H2 = Ty<T, uint16_t, 5, 5, 5>;
template <typename T> using F2 = Ty<T, uint32_t, 8, 12, 11>;
template <typename T> using D2 = Ty<T, uint64_t, 11, 26, 26>;

template <typename F>
void With(const std::string& t, F f) {
  if (t == "half") f(H_());
  else if (t == "u16") f(H2<uint16_t>());
  else if (t == "i16") f(H2<int16_t>());
  else if (t == "float") f(F_());
  else if (t == "u32") f(F2<uint32_t>());
  else if (t == "i32") f(F2<int32_t>());
  else if (t == "double") f(D_());
  else if (t == "u64") f(D2<uint64_t>());
  else if (t == "i64") f(D2<int64_t>());
  else exit(77);
}
template <typename T>
void ty(vh::Out& o) {
  constexpr bool sg = static_cast<T>(-1) < static_cast<T>(0);
  o.open().i(sizeof(T) * 8).i(sg).close();
}
enum class E1 { a = 3 };
enum class E2 : uint8_t { a = 200 };
enum class E3 : int16_t { a = -7, b = 0 };

int main() {
  std::map<std::string, vh::Handler> h;
  h["reset"] = [](const vh::Args&, vh::Out&) {};
  h["half"] = [](const vh::Args& a, vh::Out& o) {
    for (int f = 0; f < 1024; f++) {
      float r = ConvertHalfToSingle(H_::make(vh::I(a[1]), vh::I(a[2]), f >> 5, f & 31));
      uint32_t u;
      memcpy(&u, &r, 4);
      o.open().i(u >> 31);
      if (((u >> 23) & 255) == 255 && (u & 0x7fffff)) o.s("nan");
      else o.i((u >> 23) & 255).i(u & 0x7fffff);
      o.close();
    }
  };
  h["row"] = [](const vh::Args& a, vh::Out& o) {
    With(a[1], [&](auto t) {
      for (int f = 0; f < 1024; f++) {
        o.open();
        decltype(t)::cls(vh::I(a[2]), vh::I(a[3]), f >> 5, f & 31, o);
        o.close();
      }
    });
  };
  h["cls"] = [](const vh::Args& a, vh::Out& o) {
    With(a[1], [&](auto t) { decltype(t)::cls(vh::I(a[2]), vh::I(a[3]), vh::I(a[4]), vh::I(a[5]), o); });
  };
  h["const"] = [](const vh::Args& a, vh::Out& o) { With(a[1], [&](auto t) { decltype(t)::con(o); }); };
  h["types"] = [](const vh::Args& a, vh::Out& o) {
    o.open();
    ty<WideType<int8_t>::type>(o); ty<WideType<int16_t>::type>(o); ty<WideType<int32_t>::type>(o); ty<WideType<int64_t>::type>(o);
    ty<WideType<uint8_t>::type>(o); ty<WideType<uint16_t>::type>(o); ty<WideType<uint32_t>::type>(o); ty<WideType<uint64_t>::type>(o);
    ty<NarrowType<int16_t>::type>(o); ty<NarrowType<int32_t>::type>(o); ty<NarrowType<int64_t>::type>(o);
    ty<NarrowType<uint16_t>::type>(o); ty<NarrowType<uint32_t>::type>(o); ty<NarrowType<uint64_t>::type>(o);
    ty<SameSignedType<uint32_t, int8_t>::type>(o); ty<SameSignedType<int32_t, uint64_t>::type>(o);
    ty<SameSignedType<uint64_t, uint8_t>::type>(o); ty<SameSignedType<int8_t, int64_t>::type>(o);
    ty<MakeUnsigned<absl::int128>::type>(o); ty<MakeUnsigned<absl::uint128>::type>(o); ty<MakeUnsigned<int16_t>::type>(o);
    o.close().open().i(*E1::a).i(*E2::a).i(*E3::a).i(*E3::b).close();
  };
  return vh::Main(h);
}
