// REPO: uni/uni_format.cpp datas/matrix44.cpp
// FLAGS: -O1
// VARIANT: opt -O2
// VARIANT: asan -O1 -fsanitize=address
// RULE: state = distinct (interface, declared kind, getter, data) case; transition = one real interface call; trace = one case compared with the reference
#include "mc.hpp"
#include <string>
#include <iterator>
#include <vector>
#include <memory>
#include "datas/endian.hpp"
#include "datas/matrix44.hpp"
#include "uni/rts.hpp"
#include "uni/model.hpp"
#include "uni/motion.hpp"
#include "uni/skeleton.hpp"
#include "uni/list_vector.hpp"
using namespace uni;
typedef Vector4A16 V4;
enum Out { VALUE, UNHANDLED, UNSUPPORTED, OTHER };
template <class F> static Out outcome(F f) {
  try { f(); return VALUE; }
  catch (const std::logic_error &e) { return e.what()[0] ? UNHANDLED : OTHER; }
  catch (const std::runtime_error &e) { return e.what()[0] ? UNSUPPORTED : OTHER; }
  catch (...) { return OTHER; }
}
static const char *on[] = {"a value", "an unhandled call error", "an unsupported call error", "something else"};
static void expect(Out got, Out want, const char *what) { mc::step(); mc::trace(); mc::state(std::string(what) + mc::g().job->cur); if (got != want) mc::fail(std::string("refusal ") + what, "%s gives %s expected %s in case %s", what, on[got], on[want], mc::g().job->cur); }
// ---- kinds of transforms
struct TBone : Bone { TransformType t; bool impl; const Bone *par = nullptr; size_t idx = 0; std::string nm;
  TBone(TransformType a, bool b) : t(a), impl(b) {} TransformType TMType() const override { return t; } const Bone *Parent() const override { return par; } size_t Index() const override { return idx; } std::string Name() const override { return nm; }
  using Bone::GetTM; void GetTM(RTSValue &o) const override { if (!impl) return Bone::GetTM(o); o.translation = V4(1, 2, 3, 4); } };
struct TSkin : Skin { TransformType t; explicit TSkin(TransformType a) : t(a) {} size_t NumNodes() const override { return 3; } TransformType TMType() const override { return t; } size_t NodeIndex(size_t i) const override { return i * 2; } };
struct TTrack : MotionTrack { TrackType_e t; size_t b = 0; explicit TTrack(TrackType_e a) : t(a) {} TrackType_e TrackType() const override { return t; } size_t BoneIndex() const override { return b; } };
MC_SECTION("refusals", 1) {
  for (int k = 0; k < 2; k++) { TransformType t = k ? TMTYPE_MATRIX : TMTYPE_RTS; mc::at("transform kind %d", k); RTSValue r; esMatrix44 m; TBone b(t, false); TSkin s(t); const Bone &cb = b; const Skin &cs = s;
    expect(outcome([&] { cb.GetTM(r); }), k ? UNSUPPORTED : UNHANDLED, "bone parts"); expect(outcome([&] { cb.GetTM(m); }), k ? UNHANDLED : UNSUPPORTED, "bone matrix");
    for (size_t i = 0; i < 3; i++) { expect(outcome([&] { cs.GetTM(r, i); }), k ? UNSUPPORTED : UNHANDLED, "skin parts"); expect(outcome([&] { cs.GetTM(m, i); }), k ? UNHANDLED : UNSUPPORTED, "skin matrix"); }
    TBone c(t, true); expect(outcome([&] { static_cast<const Bone &>(c).GetTM(r); }), VALUE, "implemented bone parts"); if (!(r.translation == V4(1, 2, 3, 4))) mc::fail("implemented", "value lost"); }
  for (int k = MotionTrack::Position; k <= MotionTrack::SingleFloat; k++) for (float time : {0.f, -1.f, 1e9f}) { mc::at("track kind %d time %g", k, time); TTrack t{MotionTrack::TrackType_e(k)}; const MotionTrack &c = t; RTSValue r; esMatrix44 m; V4 v; float f;
    expect(outcome([&] { c.GetValue(r, time); }), k == MotionTrack::PositionRotationScale ? UNHANDLED : UNSUPPORTED, "track parts"); expect(outcome([&] { c.GetValue(m, time); }), k == MotionTrack::Matrix ? UNHANDLED : UNSUPPORTED, "track matrix");
    expect(outcome([&] { c.GetValue(v, time); }), k <= MotionTrack::Scale ? UNHANDLED : UNSUPPORTED, "track vector"); expect(outcome([&] { c.GetValue(f, time); }), k == MotionTrack::SingleFloat ? UNHANDLED : UNSUPPORTED, "track scalar"); }
}
// ---- resampling
struct TDesc : PrimitiveDescriptor { UnpackDataType_e u; BBOX b; FormatDescr f; std::string raw; const char *RawBuffer() const override { return raw.data(); } size_t Stride() const override { return 4; } size_t Offset() const override { return 0; } size_t Index() const override { return 0; } Usage_e Usage() const override { return Usage_e::Position; } FormatDescr Type() const override { return f; } BBOX UnpackData() const override { return b; } UnpackDataType_e UnpackDataType() const override { return u; } };
MC_SECTION("resampling", 4) {
  const float vals[] = {0.f, 1.f, -1.5f, 0.25f, 1000.f}; uint64_t id = 0;
  for (int u = 0; u < 6; u++) { mc::Odo o({5, 5, 5, 5}); // lane choice: data, min, max differ per lane
    while (o.next()) for (int n = 0; n <= 4; n++) { if (!mc::mine(id++)) continue;
      mc::at("resample kind %d values %d%d%d%d count %d", u, o.v[0], o.v[1], o.v[2], o.v[3], n); mc::trace(); mc::step(); mc::state(mc::g().job->cur);
      TDesc d; d.u = PrimitiveDescriptor::UnpackDataType_e(u); d.b.min = V4(vals[o.v[0]], vals[o.v[1]], vals[o.v[2]], vals[o.v[3]]); d.b.max = V4(vals[o.v[1]], vals[o.v[3]], vals[o.v[0]], vals[(o.v[2] + 1) % 5]);
      FormatCodec::fvec data; for (int i = 0; i < n; i++) data.push_back(V4(vals[(o.v[0] + i) % 5], vals[(o.v[1] + 2 * i) % 5], vals[(o.v[2] + i) % 5], vals[(o.v[3] + 3 * i) % 5])); FormatCodec::fvec was = data; const BBOX bb = d.b;
      d.Resample(data);
      if (data.size() != was.size()) { mc::fail("count", "%s", mc::g().job->cur); continue; }
      for (size_t i = 0; i < data.size(); i++) for (int l = 0; l < 4; l++) { float x = was[i]._arr[l], mn = bb.min._arr[l], mx = bb.max._arr[l], w = x; if (u == 1) w = x + mn; else if (u == 2) w = x * mn; else if (u == 3) w = mx + x * mn; if (data[i]._arr[l] != w) mc::fail("value", "lane %d of %zu is %g expected %g: %s", l, i, data[i]._arr[l], w, mc::g().job->cur); }
    } }
}
MC_SECTION("descriptor codec", 1) { // the descriptor's codec is the one of its declared format
  for (int f = 1; f <= 6; f++) for (int t = 1; t <= 17; t++) { mc::at("descriptor format %d layout %d", f, t); mc::trace(); mc::step(2); mc::state(mc::mix(uint64_t(f * 100 + t + 31337))); TDesc d; d.f = {FormatType(f), DataType(t)}; FormatCodec *a = nullptr, *b = nullptr; try { a = &FormatCodec::Get(d.f); } catch (const std::exception &) {} try { b = &d.Codec(); } catch (const std::exception &) {} if (a != b) mc::fail("codec", "%s", mc::g().job->cur); }
}
MC_SECTION("transform parts", 1) {
  const RTSValue z; if (!(z.translation == V4(0, 0, 0, 0)) || !(z.rotation == V4(0, 0, 0, 1)) || !(z.scale == V4(1, 1, 1, 0))) mc::fail("default", "default parts are not the identity");
  for (int p = 0; p < 3; p++) for (int l = 0; l < 4; l++) for (float dv : {0.f, 0.5f, -2.f, 1e20f}) { mc::at("part %d lane %d delta %g", p, l, dv); mc::trace(); mc::step(3); mc::state(mc::g().job->cur); V4 a[3] = {V4(1, 2, 3, 4), V4(.5f, .25f, -.5f, -1), V4(3, 2, 1, 7)}; RTSValue x(a[0], a[1], a[2]); if (!(x.translation == a[0]) || !(x.rotation == a[1]) || !(x.scale == a[2])) mc::fail("construct", "parts mixed"); a[p]._arr[l] += dv; RTSValue y(a[0], a[1], a[2]); bool same = dv == 0.f; if ((x == y) != same || (y == x) != same || (x != y) == same) mc::fail("equality", "%s", mc::g().job->cur); }
}
// ---- iteration over a skeleton and a motion
struct TBoneMaker { TBone *b; operator Element<const Bone>() const { return {b, false}; } };
struct TSkel : Skeleton { VectorList<Bone, TBoneMaker> l; SkeletonBonesConst Bones() const override { return {&l, false}; } std::string Name() const override { return "s"; } };
struct TMot : Motion { PolyVectorList<MotionTrack, TTrack> l; std::string Name() const override { return "m"; } using Motion::FrameRate; uint32 FrameRate() const override { return 30; } float Duration() const override { return 1; } MotionTracksConst Tracks() const override { return {&l, false}; } MotionType_e MotionType() const override { return Absolute; } };
MC_SECTION("iteration", 1) {
  for (size_t n = 0; n <= 64; n++) { mc::at("skeleton and motion of %zu", n); mc::trace(); mc::step(2 * n); mc::state(mc::mix(n + 4242)); std::vector<std::unique_ptr<TBone>> bs; TSkel s; TMot m;
    for (size_t i = 0; i < n; i++) { bs.emplace_back(new TBone(TMTYPE_RTS, true)); bs[i]->idx = i * 3; bs[i]->nm = "b" + std::to_string(i); bs[i]->par = i ? bs[i / 2].get() : nullptr; s.l.storage.push_back({bs[i].get()}); m.l.storage.emplace_back(new TTrack(MotionTrack::Position)); m.l.storage[i]->b = i * 5; }
    const Skeleton &cs = s; const Motion &cm = m; size_t k = 0;
    for (auto b : cs) { if (k >= n || b->Index() != k * 3 || b->Name() != "b" + std::to_string(k) || b->Parent() != (k ? bs[k / 2].get() : nullptr)) { mc::fail("bones", "bone %zu of %zu", k, n); break; } k++; } if (k != n) mc::fail("bone count", "%zu of %zu", k, n);
    k = 0; for (auto t : cm) { if (k >= n || t->BoneIndex() != k * 5) { mc::fail("tracks", "track %zu of %zu", k, n); break; } k++; } if (k != n) mc::fail("track count", "%zu of %zu", k, n);
    if (cs.Bones()->Size() != n || cm.Tracks()->Size() != n) mc::fail("size", "%zu", n);
    bool thrown = false; try { cm.FrameRate(60); } catch (const std::runtime_error &) { thrown = true; } catch (...) {} if (!thrown) mc::fail("frame rate", "setting an unsettable frame rate is not refused as a runtime error");
  }
}
