// Conformance harness: reads jobs (one JSON object per line), drives the real liblsqecc through its public API and
// writes what it did as JSON events (one per line) for the TLA+ specification. Each job runs in a forked child, so a
// crash or hang of the code under test becomes an event of its own.
#include "enc.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <memory>
#include <csignal>
#include <map>
#ifdef VERIF_CLI
#include <lsqecc/pipelines/slicer.hpp>
#include <lsqecc/gates/postgres_gate_stream.hpp>
#include <filesystem>
#include "fakepq.hpp"
#endif

static int g_out = 1;
static void emit(const json& j) {
    std::string s = j.dump(-1, ' ', true, json::error_handler_t::replace); s.push_back('\n');
    size_t o = 0; while (o < s.size()) { ssize_t n = ::write(g_out, s.data() + o, s.size() - o); if (n <= 0) _exit(77); o += (size_t)n; }
}
namespace lsqecc { [[gnu::weak]] void advance_slice(DenseSlice& slice, const Layout& layout); }   // not in a header; skipped where it does not exist
struct StopRun {};

static std::string cut(const std::string& s, size_t n = 400) { return s.size() > n ? s.substr(0, n) : s; }

// ------------------------------------------------------------------ layouts
static L::DistillationOptions dopt(const json& j) { L::DistillationOptions d; d.distillation_time = j.value("dt", 10); d.staggered = j.value("stag", true); return d; }
static std::unique_ptr<L::Layout> make_layout(const json& j, const json& job) {
    auto d = dopt(job);
    if (j.contains("rows")) { std::string t; bool first = true; for (auto& r : j["rows"]) { if (!first) t += "\n"; first = false; t += r.get<std::string>(); } return std::make_unique<L::LayoutFromSpec>(std::string_view{t}, d); }
    std::string g = j["gen"];
    if (g == "compact") return L::make_compact_layout(j["n"].get<size_t>(), d, j.value("nc", false));
    if (g == "edpc") return L::make_edpc_layout(j["n"].get<size_t>(), j.value("lanes", 1), j.value("cond", false), j.value("fact", false), j.value("pre", false), d);
    throw HarnessError("layout");
}
// ------------------------------------------------------------------ instruction sources
struct VecStream : L::LSInstructionStream {
    std::vector<L::LSInstruction> v; size_t i = 0; tsl::ordered_set<L::PatchId> core;
    L::LSInstruction get_next_instruction() override { return v.at(i++); }
    bool has_next_instruction() const override { return i < v.size(); }
    const tsl::ordered_set<L::PatchId>& core_qubits() const override { return core; }
};
struct VecGates : L::GateStream {
    std::vector<L::gates::Gate> v; size_t i = 0; L::Qreg q;
    L::gates::Gate get_next_gate() override { return v.at(i++); }
    bool has_next_gate() const override { return i < v.size(); }
    const L::Qreg& get_qreg() const override { return q; }
};
static L::gates::CNOTType dec_ct(const std::string& s) { using T = L::gates::CNOTType; return s == "TF" ? T::ZX_WITH_MBM_TARGET_FIRST : s == "BELL" ? T::BELL_BASED : T::ZX_WITH_MBM_CONTROL_FIRST; }
static L::gates::CNOTAncillaPlacement dec_ap(const std::string& s) { using T = L::gates::CNOTAncillaPlacement; return s == "C" ? T::ANCILLA_NEXT_TO_CONTROL : s == "T" ? T::ANCILLA_NEXT_TO_TARGET : T::USE_DEDICATED_CELL; }
static L::gates::Gate dec_gate(const json& j) {
    using namespace L::gates; std::string g = j["g"]; auto q = [&](const char* f) { return (L::QubitNum)j[f].get<long long>(); };
    if (g == "x") return X(q("q")); if (g == "y") return Y(q("q")); if (g == "z") return Z(q("q")); if (g == "h") return H(q("q"));
    if (g == "s") return S(q("q")); if (g == "sdg") return SDg(q("q")); if (g == "t") return T(q("q")); if (g == "tdg") return TDg(q("q"));
    if (g == "reset") return Reset{j.value("reg", "q"), q("q")};
    if (g == "rz") return RZ{q("q"), L::Fraction{j["n"].get<long long>(), j["d"].get<long long>(), j.value("neg", false)}};
    if (g == "cx") return ControlledGate{q("c"), X(q("q")), dec_ct(j.value("ct", "CF")), dec_ap(j.value("ap", "A"))};
    if (g == "cz") return ControlledGate{q("c"), Z(q("q")), dec_ct(j.value("ct", "CF")), dec_ap(j.value("ap", "A"))};
    throw HarnessError("gate " + g);
}
#ifdef VERIF_CLI
// the circuit database: rows [layer, type, control_q, target_q or -1, param or ""]
static void set_db(const json& rows) {
    fakepq::table.clear(); long long id = 0; auto txt = [](const json& x) { return std::optional<std::string>(std::to_string(x.get<long long>())); };
    for (auto& r : rows) { fakepq::Row w; w["id"] = std::to_string(id++); w["layer"] = txt(r[0]); w["type"] = txt(r[1]); w["control_q"] = txt(r[2]);
        w["target_q"] = r[3] == -1 ? std::nullopt : txt(r[3]); w["param"] = r[4] == "" ? std::nullopt : std::optional<std::string>(r[4].get<std::string>()); fakepq::table.push_back(w); }
}
#endif
struct Src { std::istringstream in; L::IdGenerator idg; std::unique_ptr<L::GateStream> gs; std::unique_ptr<L::LSInstructionStream> st; };
static std::unique_ptr<Src> make_src(const json& job, const L::Layout* layout) {
    auto s = std::make_unique<Src>(); const json& src = job["src"]; bool local = job.value("local", false);
    auto corr = job.value("corr", false) ? L::CNOTCorrectionMode::ALWAYS : L::CNOTCorrectionMode::NEVER;
    if (src.contains("prog")) { auto v = std::make_unique<VecStream>(); for (auto& x : src["core"]) v->core.insert((L::PatchId)x.get<long long>()); for (auto& x : src["prog"]) v->v.push_back(dec_ins(x)); s->st = std::move(v); s->idg.set_start((L::PatchId)job.value("idstart", 1000)); }
    else if (src.contains("lli")) { s->in.str(src["lli"].get<std::string>()); s->st = std::make_unique<L::LSInstructionStreamFromFile>(s->in); s->idg.set_start((L::PatchId)job.value("idstart", 1000)); }
    else {
        if (src.contains("qasm")) { s->in.str(src["qasm"].get<std::string>()); s->gs = std::make_unique<L::GateStreamFromFile>(s->in); if (job.value("decomp", true)) s->gs = std::make_unique<L::DecomposeRotationStream>(std::move(s->gs), 10.0); }
#ifdef VERIF_CLI
        else if (src.contains("db")) { set_db(src["db"]); s->gs = std::make_unique<L::PandoraPostgresGateStream>("127.0.0.1", fakepq::port, "postgres"); if (job.value("decomp", true)) s->gs = std::make_unique<L::DecomposeRotationStream>(std::move(s->gs), 10.0); }
#endif
        else { auto v = std::make_unique<VecGates>(); v->q = L::Qreg{"q", (L::QubitNum)src["n"].get<long long>()}; for (auto& g : src["gates"]) v->v.push_back(dec_gate(g)); s->gs = std::move(v); if (job.value("decomp", false)) s->gs = std::make_unique<L::DecomposeRotationStream>(std::move(s->gs), 10.0); }
        s->idg.set_start(s->gs->get_qreg().size);
        s->st = std::make_unique<L::LSInstructionStreamFromGateStream>(*s->gs, corr, s->idg, local);
    }
    if (job.contains("inj")) for (auto& i : job["inj"]) {
        std::string k = i.is_string() ? i.get<std::string>() : "expo";
        if (k == "rot") s->st = std::make_unique<L::BoundaryRotationInjectionStream>(std::move(s->st), *layout);
        else if (k == "expo") { tsl::ordered_map<L::PatchId, L::RotatableSingleQubitPatchExposedOperators> m; for (auto& e : i["expo"]) m.insert({(L::PatchId)e[0].get<long long>(), {e[1].get<bool>(), e[2].get<bool>()}}); s->st = std::make_unique<L::BoundaryRotationInjectionStream>(std::move(s->st), std::move(m)); }
        else if (k == "tele") s->st = std::make_unique<L::TeleportedSGateInjectionStream>(std::move(s->st), s->idg, false);
        else if (k == "telerot") s->st = std::make_unique<L::TeleportedSGateInjectionStream>(std::move(s->st), s->idg, true);
        else if (k == "cat") s->st = std::make_unique<L::CatalyticSGateInjectionStream>(std::move(s->st), s->idg, local, false);
        else if (k == "catrot") s->st = std::make_unique<L::CatalyticSGateInjectionStream>(std::move(s->st), s->idg, local, true);
        else throw HarnessError("inj");
    }
    return s;
}
static json enc_core(const L::LSInstructionStream& st) { json a = json::array(); for (auto i : st.core_qubits()) a.push_back(clampn(i)); return a; }
static void set_anc(const json& job) { if (job.contains("anc")) L::gates::ControlledGate::default_ancilla_placement = dec_ap(job["anc"]); }

static std::unique_ptr<L::Router> make_router(const json& job) {
    std::unique_ptr<L::Router> r; std::string k = job.value("router", "custom");
    if (k == "cached") r = std::make_unique<L::CachedRouter>(); else r = std::make_unique<L::CustomDPRouter>();
    std::string g = job.value("gs", "dij");
    r->set_graph_search_provider(g == "astar" ? L::GraphSearchProvider::AStar : g == "boost" ? L::GraphSearchProvider::Boost : L::GraphSearchProvider::Djikstra);
    return r;
}
// ------------------------------------------------------------------ JSON normalisation for the specification
static json norm_json(const json& js) {
    // keeps the real JSON's content; null -> [], so that TLA+ can read it
    json rows = json::array();
    if (!js.is_array()) return json::array();
    for (auto& r : js) { json row = json::array();
        for (auto& c : r) {
            if (c.is_null()) { row.push_back(json::array()); continue; }
            auto gs = [&](const json& o, const char* k) -> std::string { if (!o.contains(k)) return "?missing"; auto& v = o.at(k); if (v.is_string()) return v.get<std::string>(); if (v.is_null()) return "?null"; return v.dump(); };
            json e = c.contains("edges") ? c["edges"] : json::object(); json a = c.contains("activity") ? c["activity"] : json::object();
            json cell = json::array({gs(c, "patch_type"), gs(e, "Top"), gs(e, "Bottom"), gs(e, "Left"), gs(e, "Right"), gs(a, "activity_type"), gs(c, "operation_id"), gs(c, "text")});
            row.push_back(cell);
        }
        rows.push_back(row); }
    return rows;
}
static json norm_json(const L::DenseSlice& s) { return norm_json(L::slice_to_json(s)); }
static json enc_counts(const L::VolumeCounts& v) { return json::array({clampn(v.volume), clampn(v.unused_routing_volume), clampn(v.distillation_volume), clampn(v.dead)}); }
// ------------------------------------------------------------------ slicing job
static bool job_slice(const json& job) {
    set_anc(job);
    std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf());
    std::unique_ptr<L::Layout> layout; json begin{{"e", "begin"}};
    try { layout = make_layout(job["layout"], job); } catch (const std::exception& e) { emit({{"e", "fail"}, {"where", "layout"}, {"msg", cut(e.what())}}); return true; }
    begin["lay"] = enc_layout(*layout);
    try { auto s = make_src(job, layout.get()); begin["core"] = enc_core(*s->st); json p = json::array(); size_t n = 0, lim = job.value("maxprog", 5000); while (s->st->has_next_instruction() && n++ < lim) p.push_back(enc_ins(s->st->get_next_instruction())); begin["prog"] = p; }
    catch (const HarnessError&) { throw; }
    catch (const std::exception& e) { emit({{"e", "fail"}, {"where", "source"}, {"msg", cut(e.what())}}); return true; }
    std::string pipe = job.value("pipe", "stream"); bool local = job.value("local", false), twists = job.value("twists", true), opids = job.value("opids", false), graceful = job.value("graceful", false);
    begin["cfg"] = {{"pipe", pipe}, {"local", local}, {"twists", twists}, {"opids", opids}, {"graceful", graceful}, {"router", job.value("router", "custom")}, {"gs", job.value("gs", "dij")}, {"dt", job.value("dt", 10)}, {"stag", job.value("stag", true)}};
    emit(begin);
    L::SliceStats tot; size_t nsl = 0, maxs = job.value("maxs", 400), nins = 0; bool wj = job.value("json", false), ws = job.value("stats", false), wt = job.value("text", false);
    const json probes = job.contains("probes") ? job["probes"] : json::array();
    auto sv = [&](const L::DenseSlice& s) {
        json e = enc_slice(s); e["e"] = "slice"; 
        if (wj) e["js"] = norm_json(s);
        if (ws) { auto v = L::compute_volume_counts(s); tot.totals += v; e["st"] = enc_counts(v); }
        emit(e);
        for (auto& p : probes) {
            L::DenseSlice copy{s}; L::LSInstruction ins = dec_ins(p); auto r = make_router(job); json o{{"e", "probe"}};
            o["i"] = enc_ins(ins);
            try { auto res = L::try_apply_instruction_direct_followup(copy, ins, local, twists, opids, *layout, *r);
                o["r"] = res.maybe_error ? "err" : "ok"; json f = json::array(); for (auto& x : res.followup_instructions) f.push_back(enc_ins(x)); o["fol"] = f; }
            catch (const HarnessError&) { throw; }
            catch (const std::exception& ex) { o["r"] = "exc"; o["fol"] = json::array(); }
            o["ia"] = enc_ins(ins); json q = enc_slice(copy); o["g"] = q["g"]; o["mag"] = q["mag"]; o["tm"] = q["tm"]; o["y"] = q["y"];
            emit(o);
        }
        if (++nsl >= maxs) throw StopRun{};
    };
    auto iv = [&](const L::LSInstruction& i) { nins++; json j = enc_ins(i); if (wt) { std::ostringstream ss; ss << i; j["txt"] = ss.str(); } emit({{"e", "ins"}, {"i", j}}); };
    json end{{"e", "end"}, {"status", "ok"}, {"msg", ""}, {"ic", 0}, {"sc", 0}};
    try {
        auto s = make_src(job, layout.get()); auto r = make_router(job);
        auto mode = pipe == "dag" ? L::PipelineMode::Dag : pipe == "wave" ? L::PipelineMode::Wave : pipe == "edpc" ? L::PipelineMode::EDPC : L::PipelineMode::Stream;
        std::optional<std::chrono::seconds> to; if (job.contains("timeout")) to = std::chrono::seconds(job["timeout"].get<int>());
        auto res = L::run_through_dense_slices(std::move(*s->st), mode, local, twists, *layout, std::move(r), to, sv, iv, graceful, opids);
        end["ic"] = clampn(res.ls_instructions_count()); end["sc"] = clampn(res.slice_count());
    } catch (const StopRun&) { end["status"] = "stopped"; }
    catch (const HarnessError&) { throw; }
    catch (const std::exception& e) { end["status"] = "exc"; end["msg"] = cut(e.what()); }
    std::cout.rdbuf(old); end["out"] = cut(cap.str(), 2000); if (end["status"] == "ok" && !cap.str().empty()) end["status"] = "graceful";
    if (ws) { std::ostringstream ss; ss << tot; end["tot"] = enc_counts(tot.totals); end["ttxt"] = ss.str(); }
    emit(end); return end["status"] != "stopped";
}
// ------------------------------------------------------------------ a slice in an arbitrary state
static std::unique_ptr<L::DenseSlice> make_state(const json& st, const L::Layout& layout) {
    auto s = std::make_unique<L::DenseSlice>(layout); int r = 0;
    for (auto& row : st["g"]) { int c = 0; for (auto& p : row) { s->cells.at(r).at(c) = dec_patch(p); c++; } r++; }
    if (st.contains("mag")) for (auto& c : st["mag"]) s->magic_states.insert(dec_cell(c));
    s->time_to_next_magic_state_by_distillation_region.clear();
    if (st.contains("tm")) for (auto& t : st["tm"]) s->time_to_next_magic_state_by_distillation_region.push_back((L::SurfaceCodeTimestep)t.get<long long>());
    s->predistilled_ystates_available = (unsigned)st.value("y", 0);
    return s;
}
static void job_op(const json& job) {
    auto layout = make_layout(job["layout"], job); auto s = make_state(job["st"], *layout); auto r = make_router(job);
    bool local = job.value("local", false), twists = job.value("twists", true), opids = job.value("opids", false);
    emit({{"e", "begin"}, {"lay", enc_layout(*layout)}, {"core", json::array()}, {"prog", json::array()}, {"cfg", {{"pipe", "op"}, {"local", local}, {"twists", twists}, {"opids", opids}, {"graceful", false}, {"router", job.value("router", "custom")}, {"gs", job.value("gs", "dij")}, {"dt", job.value("dt", 10)}, {"stag", job.value("stag", true)}}}});
    json pre = enc_slice(*s); pre["e"] = "slice"; emit(pre);
    for (auto& p : job["ops"]) {
        if (p["k"] == "tick") { if (!lsqecc::advance_slice) continue; L::DenseSlice copy{*s}; lsqecc::advance_slice(copy, *layout); json o = enc_slice(copy); o["e"] = "tick"; emit(o); continue; }
        L::DenseSlice copy{*s}; L::LSInstruction ins = dec_ins(p); json o{{"e", "probe"}}; o["i"] = enc_ins(ins);
        try { auto res = L::try_apply_instruction_direct_followup(copy, ins, local, twists, opids, *layout, *r);
            o["r"] = res.maybe_error ? "err" : "ok"; json f = json::array(); for (auto& x : res.followup_instructions) f.push_back(enc_ins(x)); o["fol"] = f; }
        catch (const HarnessError&) { throw; }
        catch (const std::exception& ex) { o["r"] = "exc"; o["fol"] = json::array(); }
        o["ia"] = enc_ins(ins); json q = enc_slice(copy); o["g"] = q["g"]; o["mag"] = q["mag"]; o["tm"] = q["tm"]; o["y"] = q["y"]; emit(o);
    }
}
// What is shown of arbitrary lattices: JSON, volume counts and their running totals.
static void job_out(const json& job) {
    auto layout = make_layout(job["layout"], job); L::SliceStats tot;
    emit({{"e", "begin"}, {"lay", enc_layout(*layout)}});
    for (auto& st : job["sts"]) { auto s = make_state(st, *layout); json e = enc_slice(*s); e["e"] = "slice"; e["js"] = norm_json(*s); auto v = L::compute_volume_counts(*s); tot.totals += v; e["st"] = enc_counts(v); emit(e); }
    std::ostringstream ss; ss << tot; emit({{"e", "end"}, {"tot", enc_counts(tot.totals)}, {"ttxt", ss.str()}});
}
// Router queries: every query's region, or none. `sts` is a sequence of lattices; a shared router object answers all queries.
static void job_route(const json& job) {
    auto layout = make_layout(job["layout"], job); auto r = make_router(job); bool shared = job.value("shared", false), moved = false;
    for (auto& st : job["sts"]) {
        auto s = make_state(st, *layout); json g = enc_slice(*s)["g"];
        emit({{"e", "grid"}, {"g", g}, {"router", job.value("router", "custom")}, {"gs", job.value("gs", "dij")}, {"moved", moved && shared}}); moved = true;
        for (auto& q : job["qs"]) {
            if (!shared) r = make_router(job);
            json o{{"e", "route"}, {"s", q[0]}, {"so", q[1]}, {"t", q[2]}, {"to", q[3]}};
            try { auto reg = r->find_routing_ancilla(*s, (L::PatchId)q[0].get<long long>(), dec_op(q[1]), (L::PatchId)q[2].get<long long>(), dec_op(q[3]));
                o["ok"] = reg.has_value(); o["reg"] = reg ? enc_region(*reg) : json::array(); o["r"] = "ret"; }
            catch (const HarnessError&) { throw; }
            catch (const std::exception& e) { o["ok"] = false; o["reg"] = json::array(); o["r"] = "exc"; }
            emit(o);
        }
    }
}
static void job_layout(const json& job) {
    json o{{"e", "layout"}, {"spec", job["layout"]}, {"dt", job.value("dt", 10)}, {"stag", job.value("stag", true)}, {"msg", ""}};
    if (job["layout"].contains("rows")) { json ch = json::array(); for (auto& r : job["layout"]["rows"]) { std::string t = r; json a = json::array(); for (char c : t) a.push_back(std::string(1, c)); if (!t.empty()) ch.push_back(a); } o["chars"] = ch; }
    try { auto l = make_layout(job["layout"], job); o["lay"] = enc_layout(*l); o["r"] = "ret"; }
    catch (const HarnessError&) { throw; }
    catch (const std::exception& e) { o["r"] = "exc"; o["msg"] = cut(e.what()); }
    emit(o);
}
// Drain an instruction stream: the emitted instructions, in order.
static void job_trans(const json& job) {
    set_anc(job); json o{{"e", "trans"}, {"r", "ret"}, {"msg", ""}, {"core", json::array()}}; json p = json::array();
    try { std::unique_ptr<L::Layout> lay; if (job.contains("layout")) { lay = make_layout(job["layout"], job); o["lay"] = enc_layout(*lay); } auto s = make_src(job, lay.get()); o["core"] = enc_core(*s->st); size_t n = 0; while (s->st->has_next_instruction() && n++ < 5000) p.push_back(enc_ins(s->st->get_next_instruction())); }
    catch (const HarnessError&) { throw; }
    catch (const std::exception& e) { o["r"] = "exc"; o["msg"] = cut(e.what()); }
    o["ins"] = p;
    if (job.value("base", false)) { json b = json::array(); json j2 = job; j2.erase("inj"); try { auto s = make_src(j2, nullptr); while (s->st->has_next_instruction()) b.push_back(enc_ins(s->st->get_next_instruction())); } catch (const std::exception&) {} o["base"] = b; }
    emit(o);
}
static void job_lli(const json& job) {
    for (auto& l : job["lines"]) {
        std::string line = l; json o{{"e", "lli"}, {"line", line}};
        try { auto i = L::parse_ls_instruction(std::string_view{line}); o["r"] = "ret"; o["i"] = enc_ins(i);
            std::ostringstream ss; ss << i; o["txt"] = ss.str(); }
        catch (const std::exception& e) { o["r"] = "exc"; }
        emit(o);
    }
}
static void job_print(const json& job) {
    for (auto& x : job["ins"]) { json o{{"e", "print"}, {"i", x}}; std::ostringstream ss; 
        try { auto i = dec_ins(x); o["i"] = enc_ins(i); ss << i; o["r"] = "ret"; o["txt"] = ss.str(); }
        catch (const HarnessError&) { throw; }
        catch (const std::exception& e) { o["r"] = "exc"; }
        emit(o); }
}
static void job_llifile(const json& job) {
    json o{{"e", "llifile"}}; json p = json::array(); o["text"] = job["text"]; o["core"] = json::array();
    try { std::istringstream in(job["text"].get<std::string>()); L::LSInstructionStreamFromFile f(in); o["core"] = enc_core(f); while (f.has_next_instruction()) p.push_back(enc_ins(f.get_next_instruction())); o["r"] = "ret"; o["msg"] = ""; }
    catch (const std::exception& e) { o["r"] = "exc"; o["msg"] = cut(e.what()); }
    o["ins"] = p; emit(o);
}
static json enc_gate(const L::gates::Gate& g) {
    using namespace L::gates;
    auto basic = [](const BasicSingleQubitGate& b) { const char* n = "?"; using T = BasicSingleQubitGate::Type; switch (b.gate_type) { case T::X: n = "x"; break; case T::Y: n = "y"; break; case T::Z: n = "z"; break; case T::S: n = "s"; break; case T::T: n = "t"; break; case T::H: n = "h"; break; case T::SDg: n = "sdg"; break; case T::TDg: n = "tdg"; break; } return json{{"g", n}, {"q", clampn(b.target_qubit)}, {"n", 0}, {"d", 0}, {"neg", false}}; };
    auto rz = [](const RZ& r) { return json{{"g", "rz"}, {"q", clampn(r.target_qubit)}, {"n", r.pi_fraction.num}, {"d", r.pi_fraction.den}, {"neg", r.pi_fraction.is_negative}}; };
    if (auto* b = std::get_if<BasicSingleQubitGate>(&g)) return basic(*b);
    if (auto* r = std::get_if<RZ>(&g)) return rz(*r);
    if (auto* c = std::get_if<ControlledGate>(&g)) { json t = std::holds_alternative<BasicSingleQubitGate>(c->target_gate) ? basic(std::get<BasicSingleQubitGate>(c->target_gate)) : rz(std::get<RZ>(c->target_gate));
        const char* ct = c->cnot_type == CNOTType::ZX_WITH_MBM_CONTROL_FIRST ? "CF" : c->cnot_type == CNOTType::ZX_WITH_MBM_TARGET_FIRST ? "TF" : "BELL";
        const char* ap = c->cnot_ancilla_placement == CNOTAncillaPlacement::USE_DEDICATED_CELL ? "D" : c->cnot_ancilla_placement == CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL ? "C" : "T";
        t["c"] = clampn(c->control_qubit); t["g"] = std::string("c") + t["g"].get<std::string>(); t["ct"] = ct; t["ap"] = ap; return t; }
    auto& r = std::get<Reset>(g); return json{{"g", "reset"}, {"q", clampn(r.target_qubit)}, {"reg", r.register_name}};
}
static void job_qasm(const json& job) {
    set_anc(job);
    json o{{"e", "qasm"}}; json p = json::array(); o["text"] = job["text"]; o["decomp"] = job.value("decomp", false); o["reg"] = ""; o["n"] = -1; o["msg"] = "";
    try { std::istringstream in(job["text"].get<std::string>()); auto f = std::make_unique<L::GateStreamFromFile>(in); o["reg"] = f->get_qreg().name; o["n"] = clampn(f->get_qreg().size);
        if (job.value("decomp", false)) { L::DecomposeRotationStream d(std::move(f), 10.0); while (d.has_next_gate()) p.push_back(enc_gate(d.get_next_gate())); }
        else while (f->has_next_gate()) p.push_back(enc_gate(f->get_next_gate()));
        o["r"] = "ret"; }
    catch (const std::exception& e) { o["r"] = "exc"; o["msg"] = cut(e.what()); }
    o["gates"] = p; emit(o);
}
static void job_qline(const json& job) {
    set_anc(job);
    for (auto& l : job["lines"]) { std::string line = l; json o{{"e", "qline"}, {"line", line}};
        try { auto r = L::parse_gate(std::string_view{line}); 
            if (auto* g = std::get_if<L::gates::Gate>(&r)) { o["r"] = "gate"; o["gate"] = enc_gate(*g); }
            else if (auto* q = std::get_if<L::Qreg>(&r)) { o["r"] = "qreg"; o["name"] = q->name; o["n"] = clampn(q->size); }
            else o["r"] = "ignored"; }
        catch (const std::exception& e) { o["r"] = "exc"; }
        emit(o); }
}
// ------------------------------------------------------------------ dependency DAG
struct DI { int tag = 0; std::vector<int> qs; bool operator==(const DI&) const = default; };
inline std::ostream& operator<<(std::ostream& os, const DI& d) { return os << "a>i" << d.tag; }
namespace lsqecc::dag { template<> struct CommutationTrait<DI> { static bool can_commute(const DI& a, const DI& b) { for (int x : a.qs) for (int y : b.qs) if (x == y) return false; return true; } }; }
template<class D> static json enc_dag(D& d) {
    json o; const auto& g = get_graph_for_testing(d);
    json E = json::array(), B = json::array(), N = json::array();
    for (auto& [a, s] : L::dag::get_edges_for_testing(g)) { N.push_back(clampn(a)); for (auto b : s) E.push_back(json::array({clampn(a), clampn(b)})); }
    for (auto& [a, s] : L::dag::get_back_edges_for_testing(g)) for (auto b : s) B.push_back(json::array({clampn(a), clampn(b)}));
    json H = json::array(), P = json::array(), T = json::array(), TL = json::array();
    for (auto x : d.applicable_instructions()) H.push_back(clampn(x));
    for (auto x : d.proximate_instructions()) P.push_back(clampn(x));
    for (auto x : g.topological_order_tails_first()) T.push_back(clampn(x));
    for (auto x : g.tails()) TL.push_back(clampn(x));
    o["N"] = N; o["E"] = E; o["B"] = B; o["H"] = H; o["P"] = P; o["T"] = T; o["TL"] = TL; o["empty"] = d.empty(); return o;
}
static void job_dag(const json& job) {
    L::dag::DependencyDag<DI> d; int step = 0; emit({{"e", "dagbegin"}});
    for (auto& op : job["ops"]) {
        json o{{"e", "dag"}, {"op", op}, {"r", "ret"}, {"lab", -1}}; std::string k = op["k"];
        try {
            if (k == "push") { DI i; i.tag = op["item"]["tag"]; for (auto& q : op["item"]["qs"]) i.qs.push_back(q); o["lab"] = clampn(d.push_instruction_based_on_commutation(std::move(i))); }
            else if (k == "pop") d.pop_head(op["l"].get<size_t>());
            else if (k == "expand") { std::vector<DI> v; for (auto& t : op["items"]) { DI i; i.tag = t["tag"]; for (auto& q : t["qs"]) i.qs.push_back(q); v.push_back(i); } o["lab"] = clampn(d.expand(op["l"].get<size_t>(), std::move(v), op.value("prox", false))); }
            else if (k == "prox") d.make_proximate(op["l"].get<size_t>());
        } catch (const std::exception& e) { o["r"] = "exc"; }
        o["st"] = enc_dag(d);
        json tags = json::array(); for (auto& n : o["st"]["N"]) tags.push_back(json::array({n, d.at(n.get<size_t>()).tag})); o["tags"] = tags;
        emit(o); step++;
    }
    if (job.value("gv", false)) { std::string t = L::dag::to_graphviz(d); json ls = json::array(); std::istringstream is(t); std::string ln; while (std::getline(is, ln)) ls.push_back(ln); emit({{"e", "gv"}, {"lines", ls}}); }
}
static void job_domaindag(const json& job) {
    // full dependency DAGs built from real instruction / gate streams
    set_anc(job);
    auto fill = [&](auto& dag) { json o = enc_dag(dag); return o; };
    json o{{"e", "ddag"}, {"r", "ret"}, {"items", json::array()}, {"src", json::array()}, {"msg", ""}, {"gates", job.value("gates", false)}};
    try {
        json it = json::array(), src = json::array();
        if (job.value("gates", false)) {
            std::vector<L::gates::Gate> v; for (auto& g : job["src"]["gates"]) { v.push_back(dec_gate(g)); src.push_back(enc_gate(v.back())); }
            VecGates gs; gs.q = L::Qreg{"q", 64}; gs.v = v; auto d = L::dag::full_dependency_dag_from_gate_stream(gs);
            o["st"] = fill(d); for (auto& n : o["st"]["N"]) it.push_back(json::array({n, enc_gate(d.at(n.get<size_t>()))}));
        } else {
            for (auto& x : job["src"]["prog"]) src.push_back(enc_ins(dec_ins(x)));
            auto s = make_src(job, nullptr); auto d = L::dag::full_dependency_dag_from_instruction_stream(*s->st);
            o["st"] = fill(d); for (auto& n : o["st"]["N"]) it.push_back(json::array({n, enc_ins(d.at(n.get<size_t>()))}));
        }
        o["items"] = it; o["src"] = src;
    } catch (const HarnessError&) { throw; } catch (const std::exception& e) { o["r"] = "exc"; o["msg"] = cut(e.what()); }
    emit(o);
}

#ifdef VERIF_CLI
static void job_db(const json& job) {
    set_db(job["rows"]); fakepq::port = job.value("port", "5432"); fakepq::down = job.value("down", false); int asks = job.value("asks", 1);
    json o{{"e", "db"}, {"rows", job["rows"]}, {"r", "ret"}, {"msg", ""}, {"n", -1}, {"up", fakepq::port == job.value("ask", "5432") && !fakepq::down}}; json p = json::array();
    try {
        L::PandoraPostgresGateStream s("127.0.0.1", job.value("ask", "5432"), "postgres"); o["n"] = clampn(s.get_qreg().size);
        for (;;) { bool more = s.has_next_gate(); for (int i = 1; more && i < asks; i++) more = s.has_next_gate(); if (!more) break; p.push_back(enc_gate(s.get_next_gate())); if (p.size() > 5000) break; }
    } catch (const std::exception& e) { o["r"] = "exc"; o["msg"] = cut(e.what()); }
    o["gates"] = p; emit(o);
}
// ------------------------------------------------------------------ the slicer program
static json lines_of(const std::string& t) { json a = json::array(); std::istringstream is(t); std::string ln; while (std::getline(is, ln)) { auto k = ln.rfind('\r'); a.push_back(k == std::string::npos ? ln : ln.substr(k + 1)); } return a; }
// what was written to one sink: JSON slices (whole, or cut short by an exception), or lines of text
static json sink(const std::string& t) {
    json o{{"js", json::array()}, {"lines", json::array()}}; 
    for (int cutoff = 0; cutoff < 2; cutoff++) {
        json v = json::parse(cutoff ? t + "]" : t, nullptr, false);
        if (v.is_array()) { for (auto& x : v) o["js"].push_back(norm_json(x)); o["is"] = cutoff ? "part" : "json"; return o; }
    }
    o["is"] = t.empty() ? "empty" : "text"; o["lines"] = lines_of(t); return o;
}
// The library run the specification says the options mean, as events; false if it did not end.
static bool cli_reference(const json& ref) {
    std::string k = ref["kind"]; 
    if (k == "run") return job_slice(ref["job"]);
    const json& job = ref["job"]; set_anc(job); std::ostringstream ss; json o{{"e", "ref"}, {"kind", k}, {"msg", ""}, {"r", "ret"}};
    try {
        std::unique_ptr<L::Layout> lay; if (job.contains("layout")) lay = make_layout(job["layout"], job);
        auto s = make_src(job, lay.get());
        if (k == "list") while (s->st->has_next_instruction()) ss << s->st->get_next_instruction() << "\n";
        else if (k == "gatedag") L::dag::full_dependency_dag_from_gate_stream(*s->gs).to_graphviz(ss);
        else if (k == "dag") L::dag::full_dependency_dag_from_instruction_stream(*s->st).to_graphviz(ss);
        else throw HarnessError("cli reference");
    } catch (const HarnessError&) { throw; } catch (const std::exception& e) { o["r"] = "exc"; o["msg"] = cut(e.what()); }
    o["lines"] = lines_of(ss.str()); emit(o); return true;
}
static void job_cli(const json& job) {
    // the reference runs in a process of its own: library settings are static
    if (job["ref"]["kind"] != "none") {
        pid_t pid = fork(); if (pid < 0) throw HarnessError("fork");
        if (pid == 0) { alarm(20); int rc = 0; try { rc = cli_reference(job["ref"]) ? 0 : 10; } catch (const HarnessError& e) { std::cerr << "harness: " << e.what() << "\n"; rc = 90; } _exit(rc); }
        int st = 0; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 90) throw HarnessError("reference");
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { emit({{"e", "nocli"}, {"st", st}}); return; }
    }
    if (job.contains("db")) { set_db(job["db"]); fakepq::port = job.value("port", "5432"); fakepq::down = job.value("down", false); }
    namespace fs = std::filesystem;
    std::string tmpl = (fs::temp_directory_path() / "verif-cli-XXXXXX").string(); if (!mkdtemp(tmpl.data())) throw HarnessError("scratch");
    fs::path back = fs::current_path(); fs::current_path(tmpl);
    for (auto& [name, text] : job["files"].items()) { std::ofstream f(name); f << text.get<std::string>(); }
    json o{{"e", "cli"}, {"opt", job["opt"]}, {"exc", false}, {"msg", ""}, {"code", 0}};
    std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf());
    std::string out, err;
    if (job.value("strings", false)) {
        std::string cmd; for (auto& a : job["args"]) { if (!cmd.empty()) cmd += " "; cmd += a.get<std::string>(); }
        json r = json::parse(L::run_slicer_program_from_strings(cmd, job["stdin"].get<std::string>()), nullptr, false);
        if (r.is_object() && r.contains("output") && r["output"].is_string() && r.contains("err") && r["err"].is_string() && r.contains("exit_code") && r["exit_code"].is_number_integer()) { out = r["output"]; err = r["err"]; o["code"] = r["exit_code"]; o["exc"] = r["exit_code"] == 100; o["msg"] = o["exc"] ? cut(err) : ""; }
        else o["code"] = -999;
    } else {
        std::vector<std::string> args{"lsqecc_slicer"}; for (auto& a : job["args"]) args.push_back(a);
        std::vector<const char*> av; for (auto& a : args) av.push_back(a.c_str());
        std::istringstream is(job["stdin"].get<std::string>()); std::ostringstream os, es;
        try { o["code"] = L::run_slicer_program((int)av.size(), av.data(), is, os, es); }
        catch (const std::exception& e) { o["exc"] = true; o["msg"] = cut(e.what()); }
        out = os.str(); err = es.str();
    }
    std::cout.rdbuf(old);
    o["err"] = cut(err); o["said"] = cut(cap.str(), 2000); o["out"] = sink(out); o["hasfile"] = fs::exists("out.file");
    std::ostringstream fc; { std::ifstream f("out.file"); fc << f.rdbuf(); } o["file"] = sink(fc.str());
    fs::current_path(back); std::error_code ec; fs::remove_all(tmpl, ec);
    emit(o);
}
#endif

static void run_job(const json& job) {
    std::string t = job["t"];
    if (t == "slice") job_slice(job); else if (t == "op") job_op(job); else if (t == "route") job_route(job); else if (t == "layout") job_layout(job);
    else if (t == "trans") job_trans(job); else if (t == "lli") job_lli(job); else if (t == "print") job_print(job); else if (t == "llifile") job_llifile(job);
    else if (t == "out") job_out(job); else if (t == "qasm") job_qasm(job); else if (t == "qline") job_qline(job); else if (t == "dag") job_dag(job); else if (t == "ddag") job_domaindag(job);
#ifdef VERIF_CLI
    else if (t == "cli") job_cli(job);
    else if (t == "db") job_db(job);
#endif
    else throw HarnessError("unknown job type " + t);
}

int main(int argc, char** argv) {
    // vh JOBS OUT [secs-per-job]
    if (argc < 3) { std::cerr << "usage: vh jobs out [secs]\n"; return 2; }
    std::ifstream in(argv[1]); FILE* f = fopen(argv[2], "w"); if (!f || !in) return 2; g_out = fileno(f);
    int secs = argc > 3 ? atoi(argv[3]) : 20; std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        json job; try { job = json::parse(line); } catch (const std::exception& e) { std::cerr << "bad job: " << e.what() << "\n"; return 2; }
        json hdr{{"e", "job"}, {"job", job.value("id", 0)}, {"t", job["t"]}}; if (job.contains("x")) hdr["x"] = job["x"]; emit(hdr);
        pid_t pid = fork(); if (pid < 0) return 2;
        if (pid == 0) {
            struct rlimit rl{4ULL << 30, 4ULL << 30}; setrlimit(RLIMIT_AS, &rl); struct rlimit rc{0, 0}; setrlimit(RLIMIT_CORE, &rc);
            alarm((unsigned)secs);
            int rcode = 0;
            try { run_job(job); } catch (const HarnessError& e) { std::cerr << "harness: " << e.what() << "\n"; rcode = 90; }
            catch (const std::exception& e) { emit({{"e", "uncaught"}, {"msg", cut(e.what())}}); }
            catch (...) { emit({{"e", "uncaught"}, {"msg", "?"}}); }
            _exit(rcode);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 90) return 3;
        if (WIFSIGNALED(st)) emit({{"e", "dead"}, {"sig", WTERMSIG(st)}});
        else if (WIFEXITED(st) && WEXITSTATUS(st) != 0) emit({{"e", "dead"}, {"sig", 1000 + WEXITSTATUS(st)}});
        emit({{"e", "done"}, {"job", job.value("id", 0)}});
    }
    fclose(f); return 0;
}
