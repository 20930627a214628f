#include <memory>
#include "harness.h"
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
struct B { DataBuffer* db; bool live; int fac; };
static std::unique_ptr<DataBufferFactory> fac[3];
static std::vector<B> bufs;   // index = id-1; db==nullptr when gone

static int IdOf(DataBuffer* db, int f) {
  for (size_t i = 0; i < bufs.size(); i++)
    if (bufs[i].db == db) { int id = i + 1; if (bufs[i].live) return -id; bufs[i].live = true; return id; }
  bufs.push_back({db, true, f});
  return bufs.size();
}
static void Obs(vh::Out& o) {
  o.open();
  for (size_t i = 0; i < bufs.size(); i++) {
    if (!bufs[i].live) continue;
    auto* db = bufs[i].db;
    int n = db->size<uint8_t>();
    o.open().i(i + 1).i(n).i(db->ref_count()).open();
    auto* p = static_cast<uint8_t*>(db->raw_ptr());
    if (n <= 16) for (int k = 0; k < n; k++) o.i(p[k]);
    else { for (int k = 0; k < 8; k++) o.i(p[k]); for (int k = n - 8; k < n; k++) o.i(p[k]); }
    o.close().close();
  }
  o.close();
}
template <typename T> static T Mk(const std::vector<long long>& b, int off) {
  T t = 0;
  for (size_t k = 0; k < sizeof(T); k++) t = T(t | (T(uint64_t(b[off + k]) << (8 * k))));
  return t;
}
template <typename T> static void Emit(vh::Out& o, T v) {
  using U = std::make_unsigned_t<T>;
  U u = U(v);
  o.open();
  for (size_t k = 0; k < sizeof(T); k++) o.i((uint64_t(u) >> (8 * k)) & 0xff);
  o.close();
}
template <typename T> static void SetSpan(DataBuffer* db, const std::vector<long long>& b) {
  std::vector<T> v;
  for (size_t k = 0; k + sizeof(T) <= b.size(); k += sizeof(T)) v.push_back(Mk<T>(b, k));
  db->Set<T>(absl::Span<const T>(v));
}
#define BYW(w, S) switch (w) { case 1: { using T = uint8_t; S; break; } case 2: { using T = uint16_t; S; break; } \
  case 4: { using T = uint32_t; S; break; } case 8: { using T = uint64_t; S; break; } \
  case 11: { using T = int8_t; S; break; } case 12: { using T = int16_t; S; break; } case 14: { using T = int32_t; S; break; } case 18: { using T = int64_t; S; break; } }

int main() {
  auto D = [](const std::string& s) { return bufs[vh::I(s) - 1].db; };
  return vh::Main({
      {"reset", [&](const vh::Args&, vh::Out&) {
         for (auto& b : bufs) if (b.live) { while (b.live) { bool last = b.db->ref_count() == 1; b.db->DecRef(); if (last) b.live = false; } }
         bufs.clear();
         for (auto& f : fac) f = std::make_unique<DataBufferFactory>();
       }},
      {"alloc", [&](const vh::Args& a, vh::Out& o) {
         int f = vh::I(a[1]), n = vh::I(a[2]), v = vh::I(a[3]);
         DataBuffer* db;
         if (n % 8 == 0) db = fac[f]->Allocate<uint64_t>(n / 8);
         else if (n % 2 == 0) db = fac[f]->Allocate<int16_t>(n / 2);
         else db = fac[f]->Allocate(n);
         int id = IdOf(db, f);
         if (id > 0) memset(db->raw_ptr(), v, n);
         o.i(id); Obs(o);
       }},
      {"copy", [&](const vh::Args& a, vh::Out& o) {
         int f = vh::I(a[1]);
         DataBuffer* db = fac[f]->MakeCopyOf(D(a[2]));
         o.i(IdOf(db, f)); Obs(o);
       }},
      {"inc", [&](const vh::Args& a, vh::Out& o) { D(a[1])->IncRef(); o.i(vh::I(a[1])); Obs(o); }},
      {"dec", [&](const vh::Args& a, vh::Out& o) {
         auto& b = bufs[vh::I(a[1]) - 1];
         bool last = b.db->ref_count() == 1;
         b.db->DecRef();
         if (last) b.live = false;
         o.i(vh::I(a[1])); Obs(o);
       }},
      {"set", [&](const vh::Args& a, vh::Out& o) {
         auto b = vh::L(a[4]);
         int w = vh::I(a[2]);
         BYW(w, D(a[1])->Set<T>(vh::I(a[3]), Mk<T>(b, 0)));
         o.i(vh::I(a[1])); Obs(o);
       }},
      {"setspan", [&](const vh::Args& a, vh::Out& o) {
         auto b = vh::L(a[3]);
         int w = vh::I(a[2]);
         BYW(w, SetSpan<T>(D(a[1]), b));
         o.i(vh::I(a[1])); Obs(o);
       }},
      {"get", [&](const vh::Args& a, vh::Out& o) {
         int w = vh::I(a[2]);
         BYW(w, Emit<T>(o, D(a[1])->Get<T>(vh::I(a[3]))));
         Obs(o);
       }},
      {"getspan", [&](const vh::Args& a, vh::Out& o) {
         int w = vh::I(a[2]);
         BYW(w, Emit<T>(o, D(a[1])->Get<T>()[vh::I(a[3])]));
         Obs(o);
       }},
      {"num", [&](const vh::Args& a, vh::Out& o) {
         int w = vh::I(a[2]);
         BYW(w, { int n = D(a[1])->size<T>(); if ((size_t)n != D(a[1])->Get<T>().size()) n = -1; o.i(n); });
         Obs(o);
       }},
      {"copyfrom", [&](const vh::Args& a, vh::Out& o) {
         auto* d = D(a[1]); auto* g = D(a[2]);
         static int alt; alt++;
         if (alt % 3 == 0) { std::vector<uint8_t> t(g->size<uint8_t>()); g->CopyTo(t.data()); d->CopyFrom(t.data()); }
         else d->CopyFrom(g);
         o.i(vh::I(a[1])); Obs(o);
       }},
      {"clear", [&](const vh::Args& a, vh::Out& o) {
         int f = vh::I(a[1]);
         fac[f]->Clear();
         for (auto& b : bufs) if (!b.live && b.fac == f) b.db = nullptr;
         o.i(f); Obs(o);
       }},
  });
}
