#ifndef VERIF_INSTWORD_H_
#define VERIF_INSTWORD_H_
#include <cstdint>
#include <map>
#include <string>
#include <type_traits>
namespace vw {
struct Absent {};
inline bool Put(Absent, uint64_t*) { return false; }
template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
bool Put(T v, uint64_t* r) {
  *r = static_cast<uint64_t>(static_cast<int64_t>(v));
  return true;
}
struct Prog {
  void (*dec)(uint64_t, std::string*, std::string*) = nullptr;
  bool (*enc)(const std::string&, uint64_t*, int*) = nullptr;
  std::map<std::string, bool (*)(uint64_t, int, uint64_t*)> ext;
  std::map<std::string, bool (*)(uint64_t, int, uint64_t, uint64_t*)> ins;
};
std::map<int, Prog>& Progs();
}  // namespace vw
// Chosen when the generated namespace has no such function.
inline vw::Absent ExtractOp(...) { return {}; }
inline vw::Absent ExtractXa(...) { return {}; }
inline vw::Absent ExtractXb(...) { return {}; }
inline vw::Absent ExtractXc(...) { return {}; }
inline vw::Absent ExtractXd(...) { return {}; }
inline vw::Absent ExtractXe(...) { return {}; }
inline vw::Absent ExtractXf(...) { return {}; }
inline vw::Absent ExtractYa(...) { return {}; }
inline vw::Absent ExtractYb(...) { return {}; }
inline vw::Absent ExtractYc(...) { return {}; }
inline vw::Absent ExtractYz(...) { return {}; }
inline vw::Absent ExtractSa(...) { return {}; }
inline vw::Absent ExtractZa(...) { return {}; }
#endif
