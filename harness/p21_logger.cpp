// check: P21 variant=asan sources=common,utils
// Every sequence of logger operations; the printed text is compared with the table a plain record predicts.
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "altro/common/solver_logger.hpp"
#include "altro/common/solver_stats.hpp"
#include "mc.hpp"
using namespace altro;

namespace {
// Text without colours, and the colour of the first visible character of each line position.
struct Text { std::string plain; std::vector<std::string> color; };
Text parse(const std::string& s) {
  Text t; std::string cur;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\x1b') {
      size_t e = s.find('m', i);
      if (e == std::string::npos) { t.plain += "<broken escape>"; break; }
      std::string code = s.substr(i + 2, e - i - 2);
      cur = code == "0" ? "" : code;
      i = e;
      continue;
    }
    t.plain += s[i]; t.color.push_back(cur);
  }
  return t;
}
std::string trimmed(const std::string& s) {   // blanks at the end of a line do not show
  std::string o, line;
  auto flush = [&](bool nl) { size_t e = line.find_last_not_of(' '); o += e == std::string::npos ? "" : line.substr(0, e + 1); if (nl) o += '\n'; line.clear(); };
  for (char c : s) { if (c == '\n') flush(true); else line += c; }
  flush(false);
  return o;
}
std::string code(fmt::color c) { uint32_t v = static_cast<uint32_t>(c); char b[64]; snprintf(b, 64, "38;2;%03u;%03u;%03u", v >> 16, (v >> 8) & 255, v & 255); return b; }

struct Col {
  std::string title, format, data;
  LogLevel level = LogLevel::kInner;
  int width = 10;
  double lo = -std::numeric_limits<double>::infinity(), hi = std::numeric_limits<double>::infinity();
  std::string color;       // colour of the data when it is out of bounds
  bool text = false;
};
struct Rec {
  std::vector<Col> col;
  LogLevel level = LogLevel::kSilent;
  int freq = 10, since = 0;
  bool active(const Col& c) const { return level != LogLevel::kSilent && level >= c.level; }
  Col* find(const std::string& t) { for (auto& c : col) if (c.title == t) return &c; return nullptr; }
  template <class T> void log(const std::string& t, T v) {
    Col* c = find(t);
    if (!c || !active(*c)) return;
    c->data = fmt::format(c->format, v);
    c->color = v < c->lo ? code(fmt::color::green) : v > c->hi ? code(fmt::color::red) : "";
  }
  void log(const std::string& t, const char* v) { Col* c = find(t); if (c && active(*c)) { c->data = fmt::format(c->format, v); c->color.clear(); } }
};
// expected output: plain text and the colours that matter
struct Expect {
  std::string plain;
  struct Mark { size_t pos; std::string color; };   // position in the plain text (of the first visible character of a cell)
  std::vector<Mark> marks;
  static std::string right(const std::string& s, int w) { return s.size() >= static_cast<size_t>(w) ? s : std::string(w - s.size(), ' ') + s; }
  void header(const Rec& q) {
    int total = 0; bool any = false;
    for (auto& c : q.col) if (q.active(c)) { plain += right(c.title, c.width) + " "; any = true; total += c.width + 1; }
    if (any) plain += "\n" + std::string(total, '-') + "\n";
  }
  void row(const Rec& q) {
    bool any = false;
    for (auto& c : q.col) if (q.active(c)) {
      std::string cell = right(c.data, c.width);
      size_t p = cell.find_first_not_of(' ');
      if (p != std::string::npos) marks.push_back({plain.size() + p, c.color});
      plain += cell + " "; any = true;
    }
    if (any) plain += "\n";
  }
  void print(Rec* q) {
    if (q->since % q->freq == 0) { q->since = 0; header(*q); }
    row(*q); q->since++;
  }
};
void verify(mc::Run& r, const std::string& out, const Expect& e, const std::string& last) {
  Text t = parse(out);
  r.checkf(trimmed(t.plain) == trimmed(e.plain), "text", [&] { return "after " + last + " the printed text is\n" + t.plain + "expected\n" + e.plain; });
  if (t.plain != e.plain) return;   // only blanks differ: colours are not compared
  for (auto& m : e.marks) {
    bool green = t.color[m.pos] == code(fmt::color::green), red = t.color[m.pos] == code(fmt::color::red);
    bool ok = m.color == code(fmt::color::green) ? green : m.color == code(fmt::color::red) ? red : (!green && !red);
    r.checkf(ok, "color", [&] { return mc::str("after ", last, " the cell at character ", m.pos, " has colour ", t.color[m.pos], " expected ", m.color, " in\n", t.plain); });
  }
}
std::string fmtof(int i) { const char* f[] = {"{:>.3g}", "{:>4}", "{:.2e}", "{:>.1f}"}; return f[i % 4]; }
LogLevel levelof(int i) { const LogLevel l[] = {LogLevel::kOuter, LogLevel::kInner, LogLevel::kDebug, LogLevel::kOuterDebug}; return l[i % 4]; }

void ops(mc::Run& r, int depth, int ncol) {
  mc::CaptureStdout cap;
  Expect e;
  auto L = std::make_unique<SolverLogger>();
  Rec q;
  int made = 0;
  std::string last = "construction";
  auto addcol = [&](int at) {
    Col c; c.title = mc::str("t", made); c.format = fmtof(made); c.level = levelof(made); c.width = 6 + 3 * (made % 3);
    L->AddEntry(at, c.title, c.format, made % 2 ? LogEntry::kInt : LogEntry::kFloat).SetLevel(c.level).SetWidth(c.width).SetName("name");
    int n = static_cast<int>(q.col.size());
    q.col.insert(q.col.begin() + (at >= 0 ? at : n + 1 + at), c);
    ++made;
  };
  // the table one starts with: columns put in at every position
  for (int i = 0; i < ncol; ++i) { int n = static_cast<int>(q.col.size()); addcol(r.choose(2 * n + 2, "column") - n - 1); }
  {
    LogLevel l = static_cast<LogLevel>(r.pick({3, 1, 5, 0}, "verbosity"));
    L->SetLevel(l); q.level = l;
  }
  uint64_t h = mc::mix(ncol, static_cast<int>(q.level));
  for (int i = 0; i < depth; ++i) {
    int op = r.choose(15, "operation");
    h = mc::mix(h, op);
    int n = static_cast<int>(q.col.size());
    std::string what;
    r.transition();
    switch (op) {
      case 0: L->Print(); e.print(&q); what = "Print()"; break;
      case 1: if (n > 0) { int j = r.choose(n, "title"); double v = r.pick({1.25, -300., 4e5}, "value"); std::string t = q.col[j].title;
                if (t == "t1") { L->Log(t, static_cast<int>(v)); q.log(t, static_cast<int>(v)); } else { L->Log(t, v); q.log(t, v); }
                what = mc::str("Log(", t, ",", v, ")"); h = mc::hashd(mc::mix(h, j), v); } break;
      case 2: { int l = r.choose(6, "verbosity"); L->SetLevel(static_cast<LogLevel>(l)); q.level = static_cast<LogLevel>(l); what = mc::str("SetLevel(", l, ")"); h = mc::mix(h, l); break; }
      case 3: L->PrintHeader(); e.header(q); what = "PrintHeader()"; break;
      case 4: L->PrintData(); e.row(q); what = "PrintData()"; break;
      case 5: L->Clear(); q.since = 0; for (auto& c : q.col) c.data.clear(); what = "Clear()"; break;
      case 6: { int f = r.pick({1, 2, std::numeric_limits<int>::max()}, "frequency"); L->SetFrequency(f); q.freq = f; what = mc::str("SetFrequency(", f, ")"); h = mc::mix(h, f); break; }
      case 7: if (n < 4) { int at = r.choose(2 * n + 2, "column") - n - 1; addcol(at); what = mc::str("AddEntry(", at, ")"); h = mc::mix(h, at + 9); } break;
      case 8: L->Log("nosuch", 5); L->Log("", 2.0); what = "Log(unknown)"; break;
      case 9: { SolverLogger c(*L); c.SetLevel(LogLevel::kDebug); for (auto& p : q.col) c.Log(p.title, 77.0); c.Clear(); what = "changing a copy that is destroyed"; break; }
      case 10: { auto c = std::make_unique<SolverLogger>(*L); L = std::move(c); what = "continuing with a copy"; break; }
      case 11: { auto c = std::make_unique<SolverLogger>(std::move(*L)); L = std::move(c); what = "continuing with the object moved to"; break; }
      case 12: if (n > 0) { int j = r.choose(n, "title"); LogLevel l = static_cast<LogLevel>(r.pick({1, 4}, "level")); L->GetEntry(q.col[j].title).SetLevel(l).SetWidth(5); q.col[j].level = l; q.col[j].width = 5; what = mc::str("SetLevel/SetWidth of ", q.col[j].title); h = mc::mix(mc::mix(h, j), static_cast<int>(l)); } break;
      case 13: if (n > 0) { int j = r.choose(n, "title"); L->GetEntry(q.col[j].title).SetLowerBound(-10); q.col[j].lo = -10; if (r.flag("upper bound too")) { L->GetEntry(q.col[j].title).SetUpperBound(100); q.col[j].hi = 100; } what = "bounds of " + q.col[j].title; h = mc::mix(h, j); } break;
      case 14: { SolverLogger c; c = *L; *L = c; what = "assigned to another and back"; break; }
    }
    r.check(L->NumEntries() == static_cast<int>(q.col.size()), "columns", mc::str("NumEntries() is ", L->NumEntries(), " after ", what));
    r.check(L->GetLevel() == q.level, "verbosity", "GetLevel()");
    if (r.recording()) r.note(what);
    last = what;
    r.state(mc::mix(h, mc::hashs(q.since, e.plain)));
  }
  // whatever happened, one more row shows it
  L->PrintHeader(); e.header(q);
  L->Print(); e.print(&q);
  std::string out = cap.get();
  verify(r, out, e, last);
  r.outcome(mc::hashs(0, e.plain));
}

// the header repeats exactly at the interval, counted from the last Clear()
void interval(mc::Run& r) {
  mc::CaptureStdout cap;
  Expect e; Rec q; SolverLogger L;
  Col c; c.title = "x"; c.format = "{:>3}"; c.level = LogLevel::kOuter; c.width = 5; q.col.push_back(c);
  L.AddEntry(0, c.title, c.format, LogEntry::kInt).SetLevel(c.level).SetWidth(c.width);
  L.SetLevel(LogLevel::kOuter); q.level = LogLevel::kOuter;
  int f = 1 + r.choose(12, "interval");
  bool dflt = r.flag("default interval");
  if (!dflt) { L.SetFrequency(f); q.freq = f; }
  int n = 1 + r.choose(25, "rows");
  int clear = r.choose(n + 1, "clear before row");   // n: never
  int silent = r.choose(3, "silent row");
  for (int i = 0; i < n; ++i) {
    if (i == clear) { L.Clear(); q.since = 0; for (auto& p : q.col) p.data.clear(); }
    L.Log("x", i); q.log("x", i);
    if (silent && i == silent) { L.Disable(); q.level = LogLevel::kSilent; L.Print(); e.print(&q); L.SetLevel(LogLevel::kOuter); q.level = LogLevel::kOuter; }
    else { L.Print(); e.print(&q); }
    r.transition();
  }
  verify(r, cap.get(), e, mc::str(n, " rows at interval ", dflt ? 10 : f));
  r.state(mc::mix(mc::mix(f, n), clear)); r.outcome(mc::hashs(0, e.plain));
}

// cells: all formats, widths, values, bounds, kinds of data
void cells(mc::Run& r) {
  mc::CaptureStdout cap;
  Expect e; Rec q; SolverLogger L(LogLevel::kDebug); q.level = LogLevel::kDebug;
  int kind = r.choose(3, "kind");   // int, float, text
  const std::vector<std::string> fs = kind == 0 ? std::vector<std::string>{"{}", "{:>4}", "{:04d}", "<{}>"} : kind == 1 ? std::vector<std::string>{"{}", "{:>.3g}", "{:.4g}", "{:+.2e}", "{:8.3f}"} : std::vector<std::string>{"{}", "{:>6}", "{:.2}"};
  Col c; c.title = r.pick({std::string("a"), std::string("a long title indeed"), std::string("")}, "title");
  c.format = r.pickv(fs, "format"); c.width = r.pick({10, 0, 1, 7, 30}, "width"); c.level = LogLevel::kOuter;
  int b = kind == 2 ? 0 : r.choose(4, "bounds");
  LogEntry& en = L.AddEntry(0, c.title, c.format, kind == 0 ? LogEntry::kInt : kind == 1 ? LogEntry::kFloat : LogEntry::kString).SetWidth(c.width).SetLevel(c.level);
  if (b & 1) { en.SetLowerBound(-1); c.lo = -1; }
  if (b & 2) { en.SetUpperBound(10); c.hi = 10; }
  if (kind == 2) { en.SetUpperBound(0); }
  q.col.push_back(c);
  const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  r.check(en.GetTitle() == c.title && en.GetFormat() == c.format && en.GetWidth() == c.width && en.GetLevel() == c.level, "entry", "properties of the entry");
  if (kind == 0) { int v = r.pick({0, -1, -2, 10, 11, 123456789, std::numeric_limits<int>::min()}, "value"); L.Log(c.title, v); q.log(c.title, v); }
  else if (kind == 1) { double v = r.pick({0., -1., -1.0000001, 10., 10.00001, 1e300, -1e-300, nan, inf, -inf, 0.1}, "value"); L.Log(c.title, v); q.log(c.title, v); }
  else { const char* v = r.pick({"abc", "", "a longer piece of text"}, "value"); if (r.flag("string object")) L.Log(c.title, std::string(v)); else L.Log(c.title, v); q.log(c.title, v); }
  L.Print(); e.print(&q);
  L.Clear(); q.col[0].data.clear(); q.since = 0;
  L.Print(); e.print(&q);
  r.transition(4);
  std::string out = cap.get();
  verify(r, out, e, "printing one value");
  r.state(mc::hashs(mc::mix(kind, b), e.plain)); r.outcome(mc::hashs(0, e.plain));
}
// one entry on its own, without a table
void entry(mc::Run& r) {
  mc::CaptureStdout cap;
  std::string want;
  LogEntry en("t", "{:>.2f}");
  int lv = r.choose(6, "level"), w = r.pick({10, 3}, "width");
  en.SetLevel(static_cast<LogLevel>(lv)).SetWidth(w);
  int n = 1 + r.choose(3, "operations");
  std::string data;
  for (int i = 0; i < n; ++i) {
    r.transition();
    switch (r.choose(5, "operation")) {
      case 0: en.Log(1.5 + i); data = fmt::format("{:>.2f}", 1.5 + i); break;
      case 1: { int l = r.choose(6, "verbosity"); en.Print(static_cast<LogLevel>(l)); if (l >= lv) want += Expect::right(data, w); r.check(en.IsActive(static_cast<LogLevel>(l)) == (l >= lv), "active", "IsActive"); break; }
      case 2: { int l = r.choose(6, "verbosity"); en.PrintHeader(static_cast<LogLevel>(l)); if (l >= lv) want += Expect::right("t", w); break; }
      case 3: en.Clear(); data.clear(); break;
      case 4: en.Print(2.5 + i); data = fmt::format("{:>.2f}", 2.5 + i); want += Expect::right(data, w); break;
    }
  }
  std::string got = parse(cap.get()).plain;
  r.checkf(got == want, "text", [&] { return "printed \"" + got + "\" expected \"" + want + "\""; });
  r.state(mc::hashs(lv, want)); r.outcome(mc::hashs(w, want));
}

// the table of the solvers' statistics: each value under its own title at every verbosity
void stats(mc::Run& r) {
  mc::CaptureStdout cap;
  SolverStats s0;
  int lv = r.choose(6, "verbosity");
  int way = r.choose(4, "object");
  s0.SetVerbosity(static_cast<LogLevel>(lv));
  if (r.flag("tolerances")) s0.SetTolerances(1e-4, 1e-4, 1e-2);
  std::unique_ptr<SolverStats> sp;
  if (way == 0) sp.reset(new SolverStats(s0)); else if (way == 1) sp.reset(new SolverStats(std::move(s0))); else if (way == 2) { sp.reset(new SolverStats); *sp = s0; }
  else { sp.reset(new SolverStats(s0)); sp->GetOptions().verbose = static_cast<LogLevel>(lv); sp->GetOptions().header_frequency = 3; sp->Reset(); }
  SolverStats& s = *sp;
  const std::vector<std::string> titles = {"iters", "iter_al", "cost", "viol", "dJ", "grad", "alpha", "reg", "z", "pen"};
  int rows = 1 + r.choose(2, "rows"), skip = r.choose(static_cast<int>(titles.size()) + 1, "title not logged in the second row");
  std::map<std::string, std::string> val;
  std::vector<std::map<std::string, std::string>> want;
  for (int k = 0; k < rows; ++k) {
    for (size_t i = 0; i < titles.size(); ++i) {
      if (k == 1 && static_cast<int>(i) == skip) continue;
      double v = (i + 1) * 1.5 + k * 0.25;
      const std::string f = s.GetLogger().GetEntry(titles[i]).GetFormat();
      if (i < 2) { s.Log(titles[i], static_cast<int>(i) + 3 + k); val[titles[i]] = fmt::format(f, static_cast<int>(i) + 3 + k); }
      else { s.Log(titles[i], v); val[titles[i]] = fmt::format(f, v); }
    }
    s.PrintLast();
    want.push_back(val);
    r.transition();
  }
  std::string out = parse(cap.get()).plain;
  if (lv == 0) { r.check(out.empty(), "silent", "a silent logger printed " + out); r.outcome(0); return; }
  std::vector<std::vector<std::string>> lines;
  { std::istringstream in(out); std::string l; while (std::getline(in, l)) { std::istringstream w(l); std::vector<std::string> c; std::string x; while (w >> x) c.push_back(x); lines.push_back(c); } }
  r.checkf(lines.size() == static_cast<size_t>(rows) + 2, "rows", [&] { return mc::str("printed ", lines.size(), " lines:\n", out); });
  std::vector<std::string> head = lines[0];
  size_t expect = 0;
  for (auto& t : titles) {
    bool act = static_cast<int>(s.GetLogger().GetEntry(t).GetLevel()) <= lv;
    expect += act;
    bool there = std::find(head.begin(), head.end(), t) != head.end();
    r.checkf(act == there, "columns", [&] { return mc::str("column ", t, there ? " is" : " is not", " printed at verbosity ", lv); });
  }
  r.check(head.size() == expect, "columns", "columns of the header");
  for (int k = 0; k < rows; ++k) {
    auto& row = lines[2 + k];
    r.checkf(row.size() == head.size(), "columns", [&] { return "cells and header differ:\n" + out; });
    for (size_t i = 0; i < head.size(); ++i) {
      std::string w = want[k][head[i]]; w.erase(0, w.find_first_not_of(' '));
      r.checkf(row[i] == w, "value", [&] { return mc::str("row ", k, " shows ", row[i], " for ", head[i], ", expected ", w); });
    }
  }
  r.state(mc::mix(mc::mix(lv, way), skip)); r.outcome(mc::hashs(0, out));
}
}  // namespace

int main(int argc, char** argv) {
  mc::Spec s;
  s.property = "P21";
  s.unit = "state: logger contents and everything printed so far; transition: one operation; trace: one sequence of operations with its printed text";
  s.assumptions = {"colour codes are removed before comparing; blanks at the end of a line are not compared", "a value logged while its column is inactive is discarded, as documented"};
  auto add = [&](const std::string& name, const std::string& bound, std::function<void(mc::Run&)> f) {
    mc::Scenario c; c.name = name; c.bound = bound; c.body = f; s.scenarios.push_back(c);
  };
  int d = 3, e = mc::tier(0, 1);
  add("cells", "one column: every kind of data, format, width, title, bound and value of the family", cells);
  add("entry", "one entry on its own: all sequences of up to three operations, all levels", entry);
  add("interval", "header intervals 1-12 and the default, 1-25 rows, clearing before any row, a silent row", interval);
  add("statistics", "the solvers' table at every verbosity, copied, moved, assigned and reset, one value missing in the second row", stats);
  add("two-columns", mc::str("two columns added at every pair of positions, four verbosities, all sequences of ", d, " operations out of 15"), [d](mc::Run& r) { ops(r, d, 2); });
  add("three-columns", mc::str("three columns added at every positions, all sequences of ", d - 1 + e, " operations"), [d, e](mc::Run& r) { ops(r, d - 1 + e, 3); });
  add("no-columns", mc::str("no columns at first, all sequences of ", d + 1 + e, " operations"), [d, e](mc::Run& r) { ops(r, d + 1 + e, 0); });
  return mc::main_driver(argc, argv, s);
}
