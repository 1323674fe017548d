// C51: file comparison, existence and script discovery of the in-situ helpers on failing disks.
#include <iostream>
#include <ristra/io/catalyst/utils/catalystUtils.hpp>
#include <memory>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
#include "io.h"
using sim::Op; using sim::Program; using sim::Rng; using io::Still;
enum { Q_PUT, Q_COPY, Q_CHANGE, Q_TRUNC, Q_DEL, Q_CMP, Q_EXISTS, Q_SCRIPTS, Q_IMAGE, N_Q };
static const char *QN[] = {"write file", "copy file", "change a byte", "cut file", "remove file", "compareFiles", "fileExists", "getCatalystScripts", "imageCompare"};
struct Files : sim::Harness {
  void generate(Rng &r, Program &p) override {
    auto pm = [&](double c, int lo, int hi) { return r.coin(c) ? (long)r.range(lo, hi) : 0L; }; p.hdr = {pm(0.3, 5, 300), pm(0.4, 5, 400), pm(0.4, 5, 400), pm(0.3, 5, 300), pm(0.3, 5, 300)};
    if (r.coin(0.01)) {   // a large file, a copy of it, and comparisons while one of them changes
      long a = r.below(4), b = (a + 1) % 4; p.add(0, {Q_PUT, a, b, r.range(100000, 3000000), (long)(r.next() % 100000)}); p.add(0, {Q_COPY, b, a, 0, 0});
      for (int i = 0; i < 4; i++) p.add(0, {i % 2 || r.coin(0.3) ? Q_CMP : r.coin(0.8) ? Q_CHANGE : Q_TRUNC, r.coin(0.5) ? a : b, r.coin(0.5) ? b : a, 0, (long)(r.next() % 100000000)}); return;
    }
    for (int i = 0; i < 3; i++) p.add(0, {r.coin(0.6) ? Q_PUT : Q_COPY, i, r.below(4), r.coin(0.5) ? r.range(0, 50) : r.coin(0.97) ? r.range(0, 30000) : (r.coin(0.9) ? r.range(60000, 200000) : r.range(800000, 1500000)), r.next() % 100000});
    for (int i = r.range(2, 12); i > 0; i--) p.add(0, {r.coin(0.5) ? Q_CMP : r.below(N_Q), r.below(4), r.below(4), r.coin(0.5) ? r.range(0, 50) : r.coin(0.97) ? r.range(0, 30000) : (r.coin(0.9) ? r.range(60000, 200000) : r.range(800000, 1500000)), (long)(r.next() % 100000)});
  }
  std::string describe(const Program &p) override { std::string s = "per 1000: open errors " + std::to_string(p.hdr[0]) + ", read errors " + std::to_string(p.hdr[1]) + ", short reads " + std::to_string(p.hdr[2]) + ", interruptions " + std::to_string(p.hdr[3]) + ", cuts " + std::to_string(p.hdr[4]); for (auto &o : p.ops) s += "\n  #" + std::to_string(o.id) + " " + QN[o.a[0] % N_Q] + " f" + std::to_string(o.a[1] % 4) + " f" + std::to_string(o.a[2] % 4) + " size " + std::to_string(o.a[3]) + " variant " + std::to_string(o.a[4]); return s; }
  static std::string fn(long i) { return "f" + std::to_string(i % 4); }
  static std::string data(long size, long v) { std::string s; Rng r(v % 3); for (long i = 0; i < size; i++) s += (char)r.next(); return s; }
  // the differing values lie at the start or at the end and differ by much or by little
  static unsigned char px(long i, long v, long diff, bool flat, long n) { return (unsigned char)((flat ? 0 : (i * 7 + v) % 200) + ((v / 29 % 2 ? n - 1 - i : i) < diff ? v / 58 % 2 ? 1 : 20 : 0)); }
  static std::string image(long w, long h, long ch, long v, long diff, bool flat) { std::string s = std::string(ch == 3 ? "P6" : "P5") + "\n" + std::to_string(w) + " " + std::to_string(h) + "\n255\n"; for (long i = 0; i < w * h * ch; i++) s += (char)px(i, v, diff, flat, w * h * ch); return s; }
  static std::string be(uint32_t x) { std::string s; for (int k = 24; k >= 0; k -= 8) s += (char)(x >> k); return s; }
  static std::string chunk(const std::string &type, const std::string &d) { std::string t = type + d; uint32_t c = ~0u; for (unsigned char b : t) { c ^= b; for (int k = 0; k < 8; k++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); } return be((uint32_t)d.size()) + t + be(~c); }
  static std::string pngfile(long w, long h, long ch, long v, long diff, bool flat) {
    std::string raw, z("\x78\x01", 2); for (long j = 0, i = 0; j < h; j++) { raw += '\0'; for (long k = 0; k < w * ch; k++, i++) raw += (char)px(i, v, diff, flat, w * h * ch); }
    uint32_t s1 = 1, s2 = 0; for (unsigned char b : raw) { s1 = (s1 + b) % 65521; s2 = (s2 + s1) % 65521; }
    for (size_t at = 0; at < raw.size(); at += 60000) { size_t n = std::min<size_t>(60000, raw.size() - at); z += (char)(at + n == raw.size()); z += (char)n; z += (char)(n >> 8); z += (char)~n; z += (char)(~n >> 8); z += raw.substr(at, n); }
    z += be(s2 << 16 | s1); std::string hd = be((uint32_t)w) + be((uint32_t)h) + '\x08' + (ch == 3 ? '\x02' : '\0') + std::string(3, '\0'), out("\x89PNG\r\n\x1a\n", 8); out += chunk("IHDR", hd);
    size_t half = v % 4 ? z.size() : z.size() / 2; out += chunk("IDAT", z.substr(0, half)); if (half < z.size()) out += chunk("IDAT", z.substr(half)); return out + chunk("IEND", "");
  }
  void run(const Program &p) override {
    struct Null : std::streambuf { int overflow(int c) override { return 0; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } }; static Null nul; std::cout.rdbuf(&nul); std::cerr.rdbuf(&nul);
    io::scratch(); mkdir("dir", 0700); io::p = io::P(); bool any = false;
    sim::run_threads(1, [&](int) {
      for (auto &o : p.ops) {
        int code = o.a[0] % N_Q; std::string a = fn(o.a[1]), b = fn(o.a[2]), ca, cb; bool ea = io::slurp(a, ca), eb = io::slurp(b, cb); long v = o.a[4];
        io::p.open = p.hdr[0] / 1000.0; io::p.read = p.hdr[1] / 1000.0; io::p.shortr = p.hdr[2] / 1000.0; io::p.intr = p.hdr[3] / 1000.0; io::p.cut = p.hdr[4] / 1000.0;
        auto call = [&](auto f) { int h0 = io::hard_faults(0); raised = false; sim::begin_op(o.id); io::quiet = false; try { f(); } catch (std::exception &) { raised = true; } io::quiet = true; sim::end_op(); faulted = io::hard_faults(0) != h0; if (faulted) sim::count("probe.operation_met_a_disk_fault"); };
        switch (code) {
          case Q_PUT: io::put(a, data(o.a[3], v)); break; case Q_COPY: if (eb) io::put(a, cb); break; case Q_CHANGE: if (ea && !ca.empty()) { ca[v % 3 == 0 ? ca.size() - 1 : v % ca.size()] ^= 1 << (v % 8); io::put(a, ca); } break; case Q_TRUNC: if (ea && !ca.empty()) { ca.resize(v % 2 ? ca.size() - 1 : v % ca.size()); io::put(a, ca); } break; case Q_DEL: if (v % 3 == 0) unlink(a.c_str()); break;
          case Q_CMP: { bool r = false; call([&] { r = compareFiles(a, b); }); if (faulted) { io::slurp(a, ca); io::slurp(b, cb); }   /* as they are after a cut */ bool want = ea && eb && ca == cb; any = true;
            if (!raised && r && !want) sim::fail("different-files-equal", "compareFiles said two different files (%s%zu and %s%zu bytes) are identical", ea ? "" : "missing, ", ca.size(), eb ? "" : "missing, ", cb.size());
            if (!faulted && raised) sim::fail("unexpected-exception", "compareFiles raised an error although the disk works");
            if (!faulted && !r && want) sim::fail("equal-files-different", "compareFiles said two identical files of %zu bytes differ", ca.size()); sim::count(want ? "probe.compared_equal" : "probe.compared_different"); sim::mix(r * 2 + faulted); break; }
          case Q_EXISTS: { bool r = false; call([&] { r = fileExists(a); }); any = true; if (r && !ea) sim::fail("claims-existing", "fileExists reports a file that does not exist"); if (!r && ea && !faulted) sim::fail("claims-missing", "fileExists does not find an existing file"); if (raised && !faulted) sim::fail("unexpected-exception", "fileExists raised an error"); break; }
          case Q_SCRIPTS: { std::vector<std::string> want, got; std::string js = "{ \"other\": [1, {\"catalyst-scripts\": [\"no\"]}], "; int n = o.a[3] % 13 == 4 ? 5 + v % 60 : v % 4; bool bare = o.a[3] % 5 == 0; std::string in = bare ? "in.json" : "./dir/in.json"; bool have = v % 7 != 0; if (have) { js += "\"catalyst-scripts\": ["; for (int i = 0; i < n; i++) { std::string s = "s" + std::to_string(n > 4 && i % 5 == 4 ? v : v + i) + ".py"; if ((v + i) % 9 == 2) s = "sub dir/\xc3\xa9" + s; if ((v + i) % 9 == 5) s = std::string(300 + i, 'n') + "/" + s; js += (i ? ", \"" : "\"") + s + "\""; want.push_back((bare ? "./" : "./dir/") + s); } js += "], "; } js += "\"end\": \"" + std::string(o.a[3] % 12000, 'z') + "\" }\n"; bool cut = v % 11 == 5; if (cut) js.resize(v % (js.size() - 2)); io::put(in, js);
            call([&] { got = getCatalystScripts(in); }); any = true; if (cut) { if (!raised && !faulted) sim::fail("truncated-input-accepted", "a truncated script list was accepted"); break; }
            if (raised && !faulted) sim::fail("unexpected-exception", "getCatalystScripts raised an error although the file is correct"); if (bare) for (auto &g : got) if (g.compare(0, 2, "./")) g = "./" + g; if (!raised && got != want) sim::fail("wrong-scripts", "getCatalystScripts found %zu scripts; the file lists %zu%s", got.size(), want.size(), faulted ? " (after a read error that was not reported)" : ""); sim::count("probe.scripts_read"); sim::mix(got.size()); break; }
          case Q_IMAGE: {
            long w = 4 + v % 9, h = 3 + v % 7, ch = v % 5 ? 3 : 1; if (o.a[3] % 16 == 3) w += 40, h += 30; if (o.a[3] % 128 == 11 || o.a[3] % 128 == 20) w += 200, h += 130; long n = w * h * ch, d = v % 3 == 0 ? 0 : v % 3 == 1 ? (long)(n * 0.02) : (long)(n * 0.02) + 1 + v % 5; int kind = v / 7 % 10; bool png = o.a[3] % 2, flat = v / 70 % 3 == 0;
            auto img = [&](long w1, long h1, long c1, long d1) { return png ? pngfile(w1, h1, c1, v, d1, flat) : image(w1, h1, c1, v, d1, flat); };
            std::string fa = img(w, h, ch, 0), fb = kind == 1 ? img(w + 1, h, ch, 0) : kind == 2 ? img(w, h + 1, ch, 0) : kind == 3 ? img(w, h, 4 - ch, 0) : img(w, h, ch, kind >= 8 ? 0 : d);
            bool cut = kind >= 8, harmless = false; if (cut) { size_t gone = 1 + (size_t)(v / 3) % (kind == 8 ? 20 : fb.size()); if (gone > fb.size()) gone = fb.size(); fb.resize(fb.size() - gone); harmless = png && gone <= 4; }   // the last four bytes of a PNG hold nothing of the image
            bool flip = v / 13 % 2; std::string x = flip ? "f3" : "f2", y = flip ? "f2" : "f3"; io::put("f2", fa); if (kind == 4) unlink("f3"); else io::put("f3", fb);
            bool want = harmless || ((kind == 0 || (kind > 4 && !cut)) && (float)d / n <= 0.02), r = false; call([&] { r = imageCompare(x, y); }); any = true;
            if (r && !want) sim::fail(cut ? "truncated-image-accepted" : "different-images-equal", cut ? "imageCompare called an image cut short by a few bytes identical to the whole one (%d, %ld of %ld values)" : "imageCompare accepted images that differ (case %d, %ld of %ld values)", kind, d, n);
            if (r && faulted) sim::fail("unread-image-accepted", "imageCompare called two images identical although one could not be read completely");
            if (!r && want && !harmless && !faulted) sim::fail("equal-images-different", "imageCompare rejected images that differ in %ld of %ld values", d, n);
            if (raised) sim::fail("unexpected-exception", "imageCompare raised an error"); sim::count(png ? "probe.images_png" : "probe.images_pnm"); if (cut) sim::count("probe.images_cut"); sim::mix(r); break; }
        }
        sim::count((std::string("kind.") + QN[code]).c_str()); sim::mix(code * 100 + o.a[1] * 10 + o.a[2] + ca.size() * 1000); sim::state(((uint64_t)code << 8) + (ca == cb) * 4 + ea * 2 + eb); sim::advance_time(1000000);
      }
    });
    if (any) sim::nontrivial();
  }
  bool raised = false, faulted = false;
};
sim::Harness *files_harness() { return new Files; }
