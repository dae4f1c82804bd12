#include "rec.hpp"
#include "cfg.hpp"
#include "vfs.hpp"
#include <blackhole/registry.hpp>
#include <blackhole/severity.hpp>
#include <blackhole/sink.hpp>
#include <blackhole/sink/file.hpp>
static const char* P = "/v/app.log";
static bool emit(sink_t& s, const std::string& m, int* kind = nullptr) { rec r("x", 1); record_t rr = r.make(); block b(m); try { s.emit(rr, string_view(b.p, b.n)); return true; } catch (const std::system_error&) { if (kind) *kind = 1; } catch (const std::exception&) { if (kind) *kind = 2; } return false; }
// how: 0 builder, 1 builder with flush, 2 registry
static std::unique_ptr<sink_t> make(unsigned how, bool rotate, std::size_t every) {
    if (how < 2) { builder<sink::file_t> b(P); if (rotate) b.rotate_checking_stat(); if (every) b.flush_every(every); return std::move(b).build(); }
    std::string t = std::string("{\"type\":\"file\",\"path\":\"") + P + "\""; if (every) t += ",\"flush\":" + std::to_string(every); if (rotate) t += ",\"rotate\":{\"type\":\"stat\"}"; auto c = cfg(t + "}"); return registry::configured()->sink("file")(c->config());
}
// any history of emits, removals and replacements of the file; the sink is destroyed at the end
static void history(bool faults) {
    unsigned ops = (unsigned)sym_param("ops", 4), maxlen = (unsigned)sym_param("len", 2), how = sym_choice("how", 2) * 2; bool rotate = sym_bool("rotate"), exists = sym_bool("exists"); std::size_t every = sym_choice("every", (unsigned)sym_param("every", 2) + 1);
    std::vector<std::pair<vfs::inode*, std::string>> want; auto w = [&](vfs::inode* n) -> std::string& { for (auto& p : want) if (p.first == n) return p.second; want.push_back({n, ""}); return want.back().second; };
    if (exists) { vfs::dir[P] = vfs::make("old\n"); w(vfs::at(P)) = "old\n"; } auto s = make(how, rotate, every); CHECKM(vfs::opens == 0, "nothing is opened before the first record"); vfs::inode* cur = nullptr; int emitted = 0, opened = 0, failed = 0;
    for (unsigned i = 0; i < ops; i++) {
        unsigned op = sym_choice("op", faults ? 5 : 3);
        if (op == 1) vfs::dir.erase(P); else if (op == 2) { vfs::dir[P] = vfs::make("new\n"); w(vfs::at(P)) = "new\n"; }
        else if (op == 3) vfs::fail_open = 1; else {
            if (op == 4) vfs::fail_stat = 1;
            block m("m", sym_choice("len", maxlen + 1)); std::size_t known = vfs::all.size(); bool reopen = !cur || (rotate && (vfs::at(P) != cur || vfs::fail_stat)), fo = reopen && vfs::fail_open; int kind = 0;
            bool fs = rotate && vfs::fail_stat && !cur && !fo;   // the stat that follows an open fails
            bool ok = emit(*s, m.str(), &kind); vfs::fail_stat = 0;
            if (fo || fs) { CHECKM(!ok, "a failure to open surfaces"); CHECKM(kind == 1, "as a system error"); cur = nullptr; failed++; if (fs) { opened++; if (vfs::all.size() > known) w(vfs::all.back()); } continue; }
            CHECKM(ok, "the record is taken"); emitted++; if (reopen) { opened++; cur = vfs::at(P); CHECKM(cur != nullptr, "the path is opened again"); CHECKM((vfs::lastmode & 1) && (vfs::lastmode & 16) && !(vfs::lastmode & 32), "in append mode"); }
            std::string& t = w(cur); t += m.str(); t += '\n'; CHECKM(vfs::opens == opened, "opened on first use and after a rotation only"); CHECKM(vfs::live() == 1, "one open stream");
            if (every == 1) CHECKM(same(cur->data, t), "flushed with every record");
        }
    }
    s.reset(); CHECKM(vfs::opens == opened, "nothing else is opened"); CHECKM(vfs::live() == 0, "every stream is closed"); CHECKM(vfs::bad_io == 0, "closed streams are not used");
    for (auto n : vfs::all) { std::string g = n->data; CHECKM(same(g, w(n)), "every record once, in order, in the file current at that time"); observe("file", g); }
    sym_reach(failed ? "failed" : emitted == 0 ? "unused" : opened > 1 ? "rotated" : "single");
}
HARNESS c15_history() { history(false); }
HARNESS c15_faults() { history(true); }
// records of any size, around the stream buffer, accepted by the system in pieces
HARNESS c15_sizes() {
    bool tail = sym_bool("tail"); vfs::chunk = sym_choice("chunk", 2) ? 1000 : 0; std::size_t every = sym_choice("every", 2); auto s = make(0, false, every); std::string w;
    unsigned k = (unsigned)sym_param("emits", 2); static const std::size_t N[] = {0, 1, 4096, 8189, 8190, 8191, 8192, 8193, 20000}; for (unsigned i = 0; i < k; i++) { std::size_t n = N[sym_choice("n", 9)]; block m(std::string(n, (char)('a' + i))); if (n > 2 && tail) sym_bytes(m.p + n - 2, 2, "tail"); CHECKM(emit(*s, m.str()), "taken"); w += m.str(); w += '\n'; if (every) CHECKM(same(vfs::at(P)->data, w), "flushed"); }
    s.reset(); CHECKM(same(vfs::at(P)->data, w), "complete and in order"); observe("file", w); sym_reach("done");
}
// a write that fails is reported, by the call whose flush failed; nothing before it is lost
HARNESS c15_write_failure() {
    unsigned at = sym_choice("at", 3); bool big = sym_bool("big"), rotate = sym_bool("rotate"); std::size_t every = big ? 0 : 1; auto s = make(0, rotate, every); std::string w; bool failed = false;
    for (unsigned i = 0; i < 3; i++) { block m(std::string(big ? 9000 : 2, (char)('a' + i))); sym_bytes(m.p, 1, "m"); if (i == at) vfs::fail_write = 1; int kind = 0; bool ok = emit(*s, m.str(), &kind); if (i == at) { CHECKM(!ok, "a failed write surfaces as an exception"); CHECKM(kind != 0, "a standard one"); failed = true; break; } CHECKM(ok, "taken"); w += m.str(); w += '\n'; if (every) CHECKM(same(vfs::at(P)->data, w), "stored"); }
    std::string g = vfs::at(P)->data; CHECKM(g.size() <= w.size() + 9001 && (every || big), "bounded"); if (every) CHECKM(same(g, w), "what was taken is stored once"); sym_reach(failed ? "failed" : "none");
}
// records emitted after a failed write are stored or refused, never dropped silently or doubled
HARNESS c15_after_failure() {
    auto s = make(0, true, 1); std::string taken; vfs::fail_write = (int)sym_choice("fails", 3); unsigned k = (unsigned)sym_param("emits", 3); bool rot = sym_bool("replace"); std::vector<std::string> ms;
    std::vector<bool> oks; for (unsigned i = 0; i < k; i++) { if (rot && i == 1) vfs::dir.erase(P); std::string m(1, (char)('a' + i)); oks.push_back(emit(*s, m)); ms.push_back(m); } s.reset();
    std::string all; for (auto n : vfs::all) all += n->data; for (unsigned i = 0; i < k; i++) { unsigned c = 0; for (std::size_t p = 0; p + 2 <= all.size(); p++) c += all.compare(p, 2, ms[i] + "\n") == 0; CHECKM(c <= 1, "never stored twice"); if (oks[i]) CHECKM(c == 1, "what was taken is stored"); } observe("all", all); sym_reach("done");
}
// two sinks on two paths do not mix
HARNESS c15_two() {
    auto a = builder<sink::file_t>("/v/a").build(), b = builder<sink::file_t>("/v/b").build(); std::string wa, wb; unsigned k = (unsigned)sym_param("emits", 3); for (unsigned i = 0; i < k; i++) { block m("m", sym_choice("len", 2)); bool first = sym_bool("first"); CHECKM(emit(first ? *a : *b, m.str()), "taken"); (first ? wa : wb) += m.str() + "\n"; }
    CHECKM((vfs::at("/v/a") != nullptr) == !wa.empty() && (vfs::at("/v/b") != nullptr) == !wb.empty(), "opened on first use only"); a.reset(); b.reset(); if (wa.size()) CHECKM(same(vfs::at("/v/a")->data, wa), "first"); if (wb.size()) CHECKM(same(vfs::at("/v/b")->data, wb), "second"); observe("a", wa); sym_reach("done");
}
