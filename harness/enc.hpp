// Encoding between liblsqecc's public types and the JSON the TLA+ specification reads.
#pragma once
#include <lsqecc/dag/domain_dags.hpp>   // before any other header that brings in the DAG template: it prints gates through what is declared by then
#include <lsqecc/patches/dense_patch_computation.hpp>
#include <lsqecc/patches/slices_to_json.hpp>
#include <lsqecc/patches/slice_stats.hpp>
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <lsqecc/layout/dynamic_layouts/compact_layout.hpp>
#include <lsqecc/layout/dynamic_layouts/edpc_layout.hpp>
#include <lsqecc/layout/router.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <lsqecc/ls_instructions/ls_instructions_parse.hpp>
#include <lsqecc/ls_instructions/boundary_rotation_injection_stream.hpp>
#include <lsqecc/ls_instructions/teleported_s_gate_injection_stream.hpp>
#include <lsqecc/ls_instructions/catalytic_s_gate_injection_stream.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/dag/dependency_dag.hpp>
#include <lsqecc/dag/domain_dags.hpp>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

using nlohmann::json;
namespace L = lsqecc;
namespace LI = lsqecc::LocalInstruction;

struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };

inline long long clampn(unsigned long long v) { return v > 1000000000ULL ? -1 : (long long)v; }

// ---- enums, by name, so a reordering in the code is invisible ----
inline int enc_type(L::PatchType t) {
    switch (t) { case L::PatchType::Distillation: return 0; case L::PatchType::PreparedState: return 1;
        case L::PatchType::Qubit: return 2; case L::PatchType::Routing: return 3; case L::PatchType::Dead: return 4; }
    return 99;
}
inline int enc_act(L::PatchActivity a) {
    switch (a) { case L::PatchActivity::None: return 0; case L::PatchActivity::Measurement: return 1; case L::PatchActivity::Unitary: return 2;
        case L::PatchActivity::Distillation: return 3; case L::PatchActivity::Dead: return 4; case L::PatchActivity::MultiPatchMeasurement: return 5;
        case L::PatchActivity::Rotation: return 6; case L::PatchActivity::EDPC: return 7; case L::PatchActivity::Reserved: return 8; }
    return 99;
}
inline int enc_bt(L::BoundaryType b) {
    switch (b) { case L::BoundaryType::None: return 0; case L::BoundaryType::Connected: return 1; case L::BoundaryType::Rough: return 2;
        case L::BoundaryType::Smooth: return 3; case L::BoundaryType::Reserved_Label1: return 4; case L::BoundaryType::Reserved_Label2: return 5; }
    return 49;
}
inline int enc_bd(const L::Boundary& b) { return 2 * enc_bt(b.boundary_type) + (b.is_active ? 1 : 0); }
inline L::PatchType dec_type(int t) { static const L::PatchType v[] = {L::PatchType::Distillation, L::PatchType::PreparedState, L::PatchType::Qubit, L::PatchType::Routing, L::PatchType::Dead}; return v[t]; }
inline L::PatchActivity dec_act(int a) { using A = L::PatchActivity; static const A v[] = {A::None, A::Measurement, A::Unitary, A::Distillation, A::Dead, A::MultiPatchMeasurement, A::Rotation, A::EDPC, A::Reserved}; return v[a]; }
inline L::BoundaryType dec_bt(int b) { using B = L::BoundaryType; static const B v[] = {B::None, B::Connected, B::Rough, B::Smooth, B::Reserved_Label1, B::Reserved_Label2}; return v[b]; }
inline L::Boundary dec_bd(int b) { return L::Boundary{dec_bt(b / 2), (b % 2) == 1}; }

inline json enc_cell(const L::Cell& c) { return json::array({c.row + 1, c.col + 1}); } // 1-based in the specification
inline L::Cell dec_cell(const json& j) { return L::Cell{j[0].get<int>() - 1, j[1].get<int>() - 1}; }

inline json enc_patch(const std::optional<L::DensePatch>& p) {
    if (!p) return json::array();
    return json::array({enc_type(p->type), enc_act(p->activity), p->id ? clampn(*p->id) : -1LL,
        enc_bd(p->boundaries.top), enc_bd(p->boundaries.bottom), enc_bd(p->boundaries.left), enc_bd(p->boundaries.right),
        p->operation_id ? clampn(*p->operation_id) : -1LL});
}
inline std::optional<L::DensePatch> dec_patch(const json& j) {
    if (j.empty()) return std::nullopt;
    L::DensePatch p;
    p.type = dec_type(j[0]); p.activity = dec_act(j[1]);
    if (j[2].get<long long>() >= 0) p.id = (L::PatchId)j[2].get<long long>();
    p.boundaries.top = dec_bd(j[3]); p.boundaries.bottom = dec_bd(j[4]); p.boundaries.left = dec_bd(j[5]); p.boundaries.right = dec_bd(j[6]);
    if (j[7].get<long long>() >= 0) p.operation_id = (L::OpId)j[7].get<long long>();
    return p;
}
inline json enc_slice(const L::DenseSlice& s) {
    json g = json::array();
    for (auto& row : s.cells) { json r = json::array(); for (auto& p : row) r.push_back(enc_patch(p)); g.push_back(r); }
    json mag = json::array(); for (auto& c : s.magic_states) mag.push_back(enc_cell(c));
    json tm = json::array(); for (auto t : s.time_to_next_magic_state_by_distillation_region) tm.push_back(clampn(t));
    return json{{"g", g}, {"mag", mag}, {"tm", tm}, {"y", clampn(s.predistilled_ystates_available)}};
}
inline std::string enc_op(L::PauliOperator p) { switch (p) { case L::PauliOperator::I: return "I"; case L::PauliOperator::X: return "X"; case L::PauliOperator::Y: return "Y"; case L::PauliOperator::Z: return "Z"; } return "?"; }
inline L::PauliOperator dec_op(const std::string& s) { if (s == "X") return L::PauliOperator::X; if (s == "Y") return L::PauliOperator::Y; if (s == "Z") return L::PauliOperator::Z; return L::PauliOperator::I; }

inline json enc_oid(const std::optional<L::PatchId>& i) { return i ? clampn(*i) : -1LL; }
inline std::optional<L::PatchId> dec_oid(const json& j) { long long v = j; return v < 0 ? std::nullopt : std::make_optional((L::PatchId)v); }

inline json enc_local(const LI::LocalLSInstruction& li) {
    return std::visit([](const auto& o) -> json {
        using T = std::decay_t<decltype(o)>;
        if constexpr (std::is_same_v<T, LI::PrepareY>) return {{"k", "prepy"}, {"a", enc_cell(o.target_cell)}, {"b", json::array()}, {"i1", enc_oid(o.target_id)}, {"i2", -1}};
        else if constexpr (std::is_same_v<T, LI::BellPrepare>) return {{"k", "bprep"}, {"a", enc_cell(o.cell1)}, {"b", enc_cell(o.cell2)}, {"i1", enc_oid(o.side1)}, {"i2", enc_oid(o.side2)}};
        else if constexpr (std::is_same_v<T, LI::BellMeasure>) return {{"k", "bmeas"}, {"a", enc_cell(o.cell1)}, {"b", enc_cell(o.cell2)}, {"i1", -1}, {"i2", -1}};
        else if constexpr (std::is_same_v<T, LI::TwoPatchMeasure>) return {{"k", "tmeas"}, {"a", enc_cell(o.cell1)}, {"b", enc_cell(o.cell2)}, {"i1", -1}, {"i2", -1}};
        else if constexpr (std::is_same_v<T, LI::ExtendSplit>) return {{"k", "split"}, {"a", enc_cell(o.target_cell)}, {"b", enc_cell(o.extension_cell)}, {"i1", enc_oid(o.extension_id)}, {"i2", -1}};
        else if constexpr (std::is_same_v<T, LI::MergeContract>) return {{"k", "merge"}, {"a", enc_cell(o.preserved_cell)}, {"b", enc_cell(o.measured_cell)}, {"i1", -1}, {"i2", -1}};
        else return {{"k", "move"}, {"a", enc_cell(o.source_cell)}, {"b", enc_cell(o.target_cell)}, {"i1", enc_oid(o.new_id_for_target)}, {"i2", -1}};
    }, li.operation);
}
inline json enc_locals(const std::vector<LI::LocalLSInstruction>& v) { json a = json::array(); for (auto& x : v) a.push_back(enc_local(x)); return a; }
inline json enc_sc(const L::SingleCellOccupiedByPatch& c) {
    return json::array({c.cell.row + 1, c.cell.col + 1, enc_bd(c.top), enc_bd(c.bottom), enc_bd(c.left), enc_bd(c.right)});
}
inline json enc_region(const L::RoutingRegion& r) { json a = json::array(); for (auto& c : r.cells) a.push_back(enc_sc(c)); return a; }
inline json enc_pn(const std::optional<L::PlaceNexTo>& p) { if (!p) return json::array(); return json::array({clampn(p->target), enc_op(p->op)}); }

// w: own waiting limit, -1 = unlimited. clients: artificial dependencies.
inline json enc_ins(const L::LSInstruction& ins) {
    json j = std::visit([](const auto& o) -> json {
        using T = std::decay_t<decltype(o)>;
        if constexpr (std::is_same_v<T, L::DeclareLogicalQubitPatches>) { json a = json::array(); for (auto i : o.patch_ids) a.push_back(clampn(i)); return {{"k", "decl"}, {"ids", a}}; }
        else if constexpr (std::is_same_v<T, L::SinglePatchMeasurement>) return {{"k", "meas"}, {"t", clampn(o.target)}, {"p", enc_op(o.observable)}, {"neg", o.is_negative}};
        else if constexpr (std::is_same_v<T, L::MultiPatchMeasurement>) { json a = json::array(); for (auto& [i, p] : o.observable) a.push_back(json::array({clampn(i), enc_op(p)})); return {{"k", "mpm"}, {"obs", a}, {"neg", o.is_negative}}; }
        else if constexpr (std::is_same_v<T, L::PatchInit>) return {{"k", "init"}, {"t", clampn(o.target)}, {"st", o.state == L::PatchInit::InitializeableStates::Zero ? "0" : "+"}, {"pn", enc_pn(o.place_next_to)}};
        else if constexpr (std::is_same_v<T, L::BellPairInit>) return {{"k", "bell"}, {"s1", clampn(o.side1)}, {"s2", clampn(o.side2)}, {"l1", enc_pn(o.loc1)}, {"l2", enc_pn(o.loc2)},
                {"sets", o.local_instructions ? json::array({enc_locals(*o.local_instructions)}) : json::array()}};
        else if constexpr (std::is_same_v<T, L::MagicStateRequest>) return {{"k", "magic"}, {"t", clampn(o.target)}, {"near", clampn(o.near_patch)}};
        else if constexpr (std::is_same_v<T, L::YStateRequest>) return {{"k", "y"}, {"t", clampn(o.target)}, {"near", clampn(o.near_patch)}};
        else if constexpr (std::is_same_v<T, L::SingleQubitOp>) { std::string s = "?"; using O = L::SingleQubitOp::Operator;
            switch (o.op) { case O::X: s = "X"; break; case O::Y: s = "Y"; break; case O::Z: s = "Z"; break; case O::H: s = "H"; break; case O::S: s = "S"; break; }
            return {{"k", "op"}, {"t", clampn(o.target)}, {"op", s}, {"dag", o.is_dagger}}; }
        else if constexpr (std::is_same_v<T, L::RotateSingleCellPatch>) return {{"k", "rot"}, {"t", clampn(o.target)}};
        else if constexpr (std::is_same_v<T, L::BusyRegion>) { json a = json::array(), ids = json::array();
            for (auto& p : o.state_after_clearing) { ids.push_back(enc_oid(p.id)); p.visit_individual_cells([&](const L::SingleCellOccupiedByPatch& c) { a.push_back(enc_sc(c)); }); }
            return {{"k", "busy"}, {"steps", clampn(o.steps_to_clear)}, {"reg", enc_region(o.region)}, {"ids", ids}, {"after", a}}; }
        else if constexpr (std::is_same_v<T, L::BellBasedCNOT>) { json sets = json::array();
            if (o.local_instruction_sets) for (auto& v : *o.local_instruction_sets) sets.push_back(enc_locals(v));
            return {{"k", "cnot"}, {"c", clampn(o.control)}, {"t", clampn(o.target)}, {"s1", clampn(o.side1)}, {"s2", clampn(o.side2)}, {"sets", sets}}; }
        else return {{"k", "reset"}, {"t", clampn(o.target)}};
    }, ins.operation);
    j["w"] = clampn(ins.wait_at_most_for);
    json cl = json::array(); for (auto c : ins.clients) cl.push_back(clampn(c));
    j["cl"] = cl;
    return j;
}
inline L::PlaceNexTo dec_pn(const json& j) { return L::PlaceNexTo{(L::PatchId)j[0].get<long long>(), dec_op(j[1])}; }
inline L::LSInstruction dec_ins(const json& j) {
    L::LSInstruction r; std::string k = j["k"];
    auto id = [&](const char* f) { return (L::PatchId)j[f].get<long long>(); };
    if (k == "decl") { L::DeclareLogicalQubitPatches d; for (auto& x : j["ids"]) d.patch_ids.insert((L::PatchId)x.get<long long>()); r.operation = d; }
    else if (k == "meas") r.operation = L::SinglePatchMeasurement{id("t"), dec_op(j["p"]), j.value("neg", false)};
    else if (k == "mpm") { L::MultiPatchMeasurement m; m.is_negative = j.value("neg", false); for (auto& x : j["obs"]) m.observable.insert({(L::PatchId)x[0].get<long long>(), dec_op(x[1])}); r.operation = m; }
    else if (k == "init") { L::PatchInit p; p.target = id("t"); p.state = j["st"] == "0" ? L::PatchInit::InitializeableStates::Zero : L::PatchInit::InitializeableStates::Plus; if (!j["pn"].empty()) p.place_next_to = dec_pn(j["pn"]); r.operation = p; }
    else if (k == "bell") { L::BellPairInit b; b.side1 = id("s1"); b.side2 = id("s2"); b.loc1 = dec_pn(j["l1"]); b.loc2 = dec_pn(j["l2"]); r.operation = b; }
    else if (k == "magic") r.operation = L::MagicStateRequest{id("t"), id("near")};
    else if (k == "y") { L::YStateRequest y; y.target = id("t"); y.near_patch = id("near"); r.operation = y; }
    else if (k == "op") { std::string o = j["op"]; using O = L::SingleQubitOp::Operator; O op = o == "X" ? O::X : o == "Y" ? O::Y : o == "Z" ? O::Z : o == "H" ? O::H : O::S; r.operation = L::SingleQubitOp{id("t"), op, j.value("dag", false)}; }
    else if (k == "rot") r.operation = L::RotateSingleCellPatch{id("t")};
    else if (k == "cnot") { L::BellBasedCNOT c; c.control = id("c"); c.target = id("t"); c.side1 = id("s1"); c.side2 = id("s2"); r.operation = c; }
    else if (k == "reset") r.operation = L::PatchReset{id("t")};
    else throw HarnessError("bad instruction kind " + k);
    if (j.contains("w") && j["w"].get<long long>() >= 0) r.wait_at_most_for = (size_t)j["w"].get<long long>();
    if (j.contains("cl")) for (auto& c : j["cl"]) r.clients.insert((L::PatchId)c.get<long long>());
    return r;
}

inline json enc_layout(const L::Layout& l) {
    json j; auto f = l.furthest_cell(); j["rows"] = f.row + 1; j["cols"] = f.col + 1;
    json core = json::array();
    for (auto& p : l.core_patches()) { p.visit_individual_cells([&](const L::SingleCellOccupiedByPatch& c) { core.push_back(enc_sc(c)); }); }
    j["core"] = core;
    json regs = json::array(), outs = json::array(); size_t n = l.distillation_regions().size();
    for (size_t i = 0; i < n; i++) { json r = json::array(); for (auto& c : l.distillation_regions()[i].sub_cells) r.push_back(enc_sc(c)); regs.push_back(r);
        json o = json::array(); for (auto& c : l.distilled_state_locations(i)) o.push_back(enc_cell(c)); outs.push_back(o); }
    j["regs"] = regs; j["outs"] = outs;
    auto cells = [](const std::vector<L::Cell>& v) { json a = json::array(); for (auto& c : v) a.push_back(enc_cell(c)); return a; };
    json tm = json::array(); for (auto t : l.distillation_times()) tm.push_back(clampn(t)); j["times"] = tm;
    j["anc"] = cells(l.ancilla_location()); j["dead"] = cells(l.dead_location()); j["res"] = cells(l.reserved_for_magic_states()); j["ys"] = cells(l.predistilled_y_states());
    j["resv"] = l.magic_states_reserved();
    return j;
}
