// C22: command lines processed one after another against options registered along the way, with failing
// memory and failing output.
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <ristra/ristra-config.h>
#include <ristra/initialization/arguments.h>
#include "sim.h"
using sim::Op; using sim::Program; using sim::Rng;
namespace in = ristra::initialization;
enum { K_SINK = sim::K_F0 };
static double p_sink; static int g_sink; static bool g_live; static std::string g_text;
struct Sink : std::streambuf {
  bool bad() { if (!g_live || !sim::fault(K_SINK, p_sink)) return false; g_sink++; sim::count("fault.output_failed"); return true; }
  std::streamsize xsputn(const char *p, std::streamsize n) override { if (bad()) return 0; if (g_text.size() < 100000) g_text.append(p, (size_t)n); return n; }
  int_type overflow(int_type ch) override { if (bad()) return traits_type::eof(); return ch == traits_type::eof() ? 0 : ch; }
};
static Sink g_buf;
enum { F_FLAG, F_INT, F_REAL, F_STR, F_VEC };
struct Opt { const char *name, *shrt; int type; };
// no name is a prefix of another, so that abbreviations are unique
static const Opt OPTS[] = {{"help", "h", F_FLAG}, {"verbose", "v", F_FLAG}, {"steps", "n", F_INT}, {"cfl", "", F_REAL}, {"mesh", "m", F_STR}, {"output", "o", F_STR}, {"dim", "d", F_INT}, {"quiet", "", F_FLAG}, {"time", "t", F_REAL}, {"list", "", F_STR},
  {"restart-from-the-last-checkpoint-written-before-this-run", "r", F_STR}, {"restart-from-the-last-checkpoint-whose-index-is", "", F_INT}, {"Mesh", "M", F_INT}, {"x", "", F_REAL}, {"gamma", "g", F_REAL}, {"ranks", "k", F_INT}};
const int NO = 16, NG = 9;
static const char *GROUPS[NG] = {"main", "io", "extra", "a", "physics", "Main", "z-last", "another group with a long name", ""};
static const char *TITLES[NG] = {"Options", "Input and output", "Extra", "A title", "Physics", "Capital main", "Last of all", "A group whose title is rather long indeed", "No key"};
static std::string text_of(int k) { return "text_" + std::to_string(k * 7 + 3) + "_"; }
enum { A_REG, A_LINE, A_MISSING, A_GROUP, A_NEW, N_A };
// items of a command line
enum { I_GOOD, I_UNKNOWN, I_WORD, I_BAD, I_ABBR, N_I };
struct Args : sim::Harness {
  void generate(Rng &r, Program &p) override {
    p.hdr = {r.coin(0.5) ? 0 : r.range(5, 150), r.coin(0.6) ? 0 : r.range(50, 900), r.coin(0.25)};
    int n = (int)r.range(3, 12), k0 = (int)r.below(r.coin(0.1) ? 24 : 6);
    for (int i = 0; i < k0; i++) p.add(0, {A_REG, r.below(NO), r.below(r.coin(0.6) ? 3 : NG)});
    for (int i = 0; i < n; i++) { double u = r.unit(); long c = u < 0.2 ? A_REG : u < 0.88 ? A_LINE : u < 0.93 ? A_MISSING : u < 0.97 ? A_GROUP : A_NEW; p.add(0, {c, c == A_REG ? r.below(NO) : (long)(r.next() >> 8), r.below(c == A_LINE || r.coin(0.6) ? 3 : NG)}); }
  }
  std::string describe(const Program &p) override {
    std::string s = "faults: allocation " + std::to_string(p.hdr[0]) + " output " + std::to_string(p.hdr[1]) + (p.hdr[2] ? " (process-wide instance); " : "; ");
    for (auto &o : p.ops) { if (o.a[0] == A_REG) s += std::string("register ") + OPTS[o.a[1]].name + "; "; else if (o.a[0] == A_LINE) { s += "line(" + std::to_string(o.a[1]) + "); "; } else s += o.a[0] == A_MISSING ? "missing; " : o.a[0] == A_GROUP ? "group; " : "new; "; }
    return s;
  }
  struct Want { std::map<std::string, std::string> val; bool err = false; };
  std::set<int> reg; Want w; std::vector<std::string> line;
  static std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
  void build(Rng r) {
    w = Want(); line = {(r.coin(0.1) ? "/opt/codes/" + std::string((size_t)r.range(1, 600), 'd') + "/" : "") + "prog" + std::to_string(r.below(3))}; std::set<int> used; int n = (int)r.below(r.coin(0.08) ? 40 : 6); bool rude = r.coin(0.6);
    for (int i = 0; i < n; i++) {
      int k = (int)r.below(NO); double u = r.unit(); int kind = u < 0.66 ? I_GOOD : u < 0.75 ? I_UNKNOWN : u < 0.82 ? I_WORD : u < 0.93 ? (rude || n < 6 ? I_BAD : I_GOOD) : I_ABBR; const Opt &o = OPTS[k]; bool have = reg.count(k); if (n >= 6 && !rude && used.count(k)) continue;
      std::string text, val; long iv = r.coin(0.7) ? r.range(0, 999) : (long)(int)r.next() >> r.below(20); if (iv == -77) iv = 77; double dv = r.coin(0.7) ? r.unit() * 100 : r.unit() * 1e6 - 5e5; std::string sv; for (int j = (int)r.range(1, r.coin(0.05) ? 5000 : 30); j > 0; j--) sv += "abcdxyz./_9= '\"-"[sv.empty() ? r.below(11) : r.below(16)];
      bool last = i == n - 1; int form = (int)r.below(4);
      if (o.type == F_INT) { text = std::to_string(iv); val = text; } else if (o.type == F_REAL) { text = num(dv); val = text; } else if (o.type == F_STR) { text = sv; val = sv; }
      switch (kind) {
        case I_WORD: line.push_back("w" + std::to_string(iv)); continue;
        case I_UNKNOWN: line.push_back(form < 2 ? "--zz" + std::to_string(iv) : "--zz=" + std::to_string(iv)); continue;
        case I_BAD:
          if (!have || o.type == F_FLAG) { if (have) { line.push_back("--" + std::string(o.name) + "=1"); w.err = true; } continue; }   // a flag takes no value
          if (last && form < 2) { line.push_back(form == 0 || !*o.shrt ? "--" + std::string(o.name) : "-" + std::string(o.shrt)); w.err = true; continue; }   // value missing
          if (o.type == F_STR) { line.push_back("--" + std::string(o.name) + "="); w.err = true; continue; }
          line.push_back("--" + std::string(o.name) + "=" + std::string(form < 1 ? "abc" : form < 2 && o.type == F_INT ? "99999999999" : "1x")); w.err = true; continue;
        default: ;
      }
      std::string nm = o.name;
      if (kind == I_ABBR) { if (!have) continue; nm = nm.substr(0, (size_t)r.range(k == 10 || k == 11 ? 46 : nm.size() < 2 ? 1 : 2, (long)nm.size())); }
      if (!have) {   // not registered (yet): ignored
        line.push_back("--" + nm + (o.type == F_FLAG ? "" : "=" + text)); continue;
      }
      if (text[0] == '-' && form < 2 && o.type != F_FLAG) { form = 3; if (kind == I_ABBR) form = 1; }   // a separate word that starts with a dash is another option
      if (o.type == F_FLAG) line.push_back(form < 2 && *o.shrt && kind == I_GOOD ? "-" + std::string(o.shrt) : "--" + nm);
      else if (form == 0 || !*o.shrt || kind == I_ABBR) { if (form & 1) line.push_back("--" + nm + "=" + text); else { line.push_back("--" + nm); line.push_back(text); } }
      else if (form == 1) { line.push_back("-" + std::string(o.shrt)); line.push_back(text); }
      else if (form == 2) line.push_back("-" + std::string(o.shrt) + text);
      else line.push_back("--" + nm + "=" + text);
      if (!used.insert(k).second) w.err = true;   // given twice
      w.val[o.name] = o.type == F_FLAG ? "set" : val;
    }
  }
  void run(const Program &p) override {
    std::cout.rdbuf(&g_buf); std::cerr.rdbuf(&g_buf);
    p_sink = p.hdr[1] / 1000.0; sim::set_alloc_fail(0);
    std::unique_ptr<in::command_line_arguments_t> own(new in::command_line_arguments_t); in::command_line_arguments_t *a = p.hdr[2] ? &in::command_line_arguments_t::instance() : own.get();
    reg.clear(); int lines = 0; std::string prog; std::vector<std::pair<in::command_line_variables_t, std::map<std::string, std::string>>> earlier;
    std::map<std::string, std::string> titles; std::set<std::string> groups; auto complete = [&](const std::string &t, const char *what) {
      for (int k : reg) { if (t.find(std::string("--") + OPTS[k].name) == std::string::npos) sim::fail("wrong-usage", "%s lacks option %s", what, OPTS[k].name); if (t.find(text_of(k)) == std::string::npos) sim::fail("wrong-usage", "%s lacks the description of option %s", what, OPTS[k].name); }
      for (auto &g : groups) if (t.find(titles[g]) == std::string::npos) sim::fail("wrong-usage", "%s lacks the title of group %s", what, g.c_str()); };
    for (auto &o : p.ops) {
      sim::InOp iop(o.id); std::cout.clear(); std::cerr.clear(); sim::advance_time(1000);
      switch (o.a[0]) {
        case A_REG: {
          const Opt &q = OPTS[o.a[1]]; if (reg.count((int)o.a[1])) break; std::string f = q.name; if (*q.shrt) f += std::string(",") + q.shrt; std::string g = GROUPS[o.a[2]], tx = text_of((int)o.a[1]);
          bool ok = q.type == F_INT ? a->register_argument<int>(g, f, tx) : q.type == F_REAL ? a->register_argument<double>(g, f, tx) : q.type == F_STR ? a->register_argument<std::string>(g, f, tx) : a->register_argument(g, f, tx);
          if (!ok) sim::fail("not-registered", "registering %s was refused", q.name); reg.insert((int)o.a[1]); titles.emplace(g, ""); groups.insert(g); sim::count("kind.register"); break; }
        case A_GROUP: a->register_group(GROUPS[o.a[2]], TITLES[o.a[2]]); titles.emplace(GROUPS[o.a[2]], TITLES[o.a[2]]); sim::count("kind.group"); break;
        case A_NEW: if (p.hdr[2]) break; prog.clear(); own.reset(new in::command_line_arguments_t); a = own.get(); reg.clear(); titles.clear(); groups.clear(); sim::count("kind.new"); break;
        case A_MISSING: {
          std::string t; bool threw = false; long f0 = sim::alloc_faults(); int s0 = g_sink; sim::set_alloc_fail(p.hdr[0] / 1000.0);
          try { t = a->print_missing_argument("mesh"); } catch (std::exception &) { threw = true; }
          sim::set_alloc_fail(0); bool flt = sim::alloc_faults() != f0; sim::count("kind.missing_message");
          if (threw && !flt) sim::fail("unexpected-exception", "print_missing_argument raised an error although nothing failed");
          if (!threw && !flt) { if (!prog.empty() && t.find(prog) == std::string::npos) sim::fail("wrong-message", "the message does not name the program %s", prog.c_str()); if (t.find("mesh") == std::string::npos) sim::fail("wrong-message", "the message does not name the missing option"); complete(t, "the message about a missing option"); }
          break; }
        case A_LINE: {
          build(Rng((uint64_t)o.a[1])); std::vector<std::string> keep = line; std::vector<char *> av; for (auto &x : keep) av.push_back(&x[0]); av.push_back(nullptr);
          std::string txt; for (auto &x : line) txt += x + " ";
          bool threw = false, err = false; std::map<std::string, std::string> got; std::set<std::string> cnt; long f0 = sim::alloc_faults(); int s0 = g_sink; bool out = o.a[2] != 0;
          g_live = true;
          // boost's error text allocates in a noexcept function, so a message about a malformed line is printed with memory at hand
          if (!(w.err && out)) sim::set_alloc_fail(p.hdr[0] / 1000.0);
          try {
            g_text.clear();
            auto r = a->process_arguments((int)keep.size(), av.data(), out); sim::set_alloc_fail(0); g_live = false; err = r.error;
            prog = line[0]; bool told = r.error || r.variables.count("help");
            if (out && told && g_sink == s0 && sim::alloc_faults() == f0) {
              if (g_text.find(prog) == std::string::npos) sim::fail("wrong-usage", "the usage text after \"%s\" does not name the program", txt.c_str());
              complete(g_text, ("the usage text after \"" + txt + "\"").c_str());
            }
            if (!out && !g_text.empty()) sim::fail("unwanted-output", "processing \"%s\" quietly wrote something", txt.c_str());
            if (!err) for (int k = 0; k < NO; k++) { const Opt &q = OPTS[k]; std::string nm = q.name;
              if (r.variables.count(nm)) cnt.insert(nm);
              if (q.type == F_FLAG) { if (r.variables.count(nm)) got[nm] = "set"; }
              else if (q.type == F_INT) { int v = r.variables.as<int>(nm, -77); if (v != -77) got[nm] = std::to_string(v); else if (cnt.count(nm)) got[nm] = "?"; if (!cnt.count(nm) && r.variables.as<int>(nm) != 0) sim::fail("wrong-default", "the default of an absent option is not 0"); }
              else if (q.type == F_REAL) { double v = r.variables.as<double>(nm, -77.5); if (v != -77.5) got[nm] = num(v); else if (cnt.count(nm)) got[nm] = "?"; }
              else { std::string v = r.variables.as<std::string>(nm, "!none"); if (v != "!none") got[nm] = v; else if (cnt.count(nm)) got[nm] = "?"; } }
            if (!err && earlier.size() < 4) earlier.emplace_back(r.variables, got);
          } catch (std::exception &e) { sim::set_alloc_fail(0); g_live = false; threw = true; prog.clear(); if (sim::verbose()) sim::note("raised %s", e.what()); }
          bool flt = sim::alloc_faults() != f0; sim::count("kind.command_line"); lines++;
          for (size_t i = 0; i < keep.size(); i++) if (keep[i] != line[i]) sim::fail("arguments-changed", "processing changed the argument vector");
          if (sim::verbose()) sim::note("%s: %s", txt.c_str(), threw ? "raised" : err ? "error" : "ok");
          if (threw) { if (!flt) sim::fail("unexpected-exception", "processing \"%s\" raised an error although nothing failed", txt.c_str()); sim::count("probe.failed_by_fault"); break; }
          if (err != w.err) { if (err && flt) break; sim::fail(err ? "unexpected-error" : "error-not-flagged", "processing \"%s\" %s", txt.c_str(), err ? "flagged an error although it is correct" : "flagged no error although it is malformed"); }
          if (err) { sim::count("probe.malformed_lines"); break; }
          if (got != w.val) { std::string a1, b1; for (auto &x : got) a1 += x.first + "=" + x.second + " "; for (auto &x : w.val) b1 += x.first + "=" + x.second + " "; sim::fail("wrong-options", "\"%s\" gave [%s]; expected [%s]", txt.c_str(), a1.c_str(), b1.c_str()); }
          uint64_t h = 0; for (auto &x : got) h = h * 31 + std::hash<std::string>()(x.first + x.second); sim::state(h + reg.size()); sim::mix(h);
          break; }
      }
    }
    for (auto &e : earlier) for (int k = 0; k < NO; k++) {
      const Opt &q = OPTS[k]; std::string nm = q.name, v; bool have = e.first.count(nm);
      if (have != (e.second.count(nm) != 0)) sim::fail("earlier-result-changed", "option %s of an earlier result appeared or vanished", q.name);
      if (!have || q.type == F_FLAG) continue;
      v = q.type == F_INT ? std::to_string(e.first.as<int>(nm)) : q.type == F_REAL ? num(e.first.as<double>(nm)) : e.first.as<std::string>(nm);
      if (v != e.second[nm]) sim::fail("earlier-result-changed", "option %s of an earlier result changed from %s to %s", q.name, e.second[nm].c_str(), v.c_str());
    }
    if (lines > 1) sim::nontrivial();
  }
};
sim::Harness *sim_harness(const std::string &) { return new Args; }
