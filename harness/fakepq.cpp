// A stand-in for the PostgreSQL client library: one in-memory table, answering the SELECTs the database reader sends.
// It executes what it is asked (conditions, aggregates, ordering, limits); what it cannot answer ends the harness (exit 3), it never makes an answer up.
#include <libpq-fe.h>
#include <algorithm>
#include <cctype>
#include <cstring>
#include <iostream>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include <unistd.h>
#include "fakepq.hpp"
namespace fakepq {
Table table; std::vector<std::string> log; std::string port = "5432"; bool down = false;
[[noreturn]] static void give_up(const std::string& why) { std::cerr << "harness: fake database: " << why << "\n"; _exit(90); }
struct Result { ExecStatusType st = PGRES_TUPLES_OK; std::vector<std::string> names; std::vector<std::vector<std::optional<std::string>>> rows; std::string msg; };
struct Conn { ConnStatusType st = CONNECTION_OK; std::string msg; std::map<std::string, std::string> prepared; };

struct Tok { char k; std::string s; };   // w word, n number, s string, p punctuation
static std::vector<Tok> lex(const std::string& q) {
    std::vector<Tok> v; size_t i = 0;
    while (i < q.size()) {
        char c = q[i];
        if (isspace((unsigned char)c)) { i++; continue; }
        if (c == '-' && i + 1 < q.size() && q[i + 1] == '-') { while (i < q.size() && q[i] != '\n') i++; continue; }
        if (isalpha((unsigned char)c) || c == '_' || c == '"') { std::string s; bool quoted = c == '"'; if (quoted) i++; while (i < q.size() && (quoted ? q[i] != '"' : isalnum((unsigned char)q[i]) || q[i] == '_')) s += tolower(q[i++]); if (quoted) i++; v.push_back({'w', s}); continue; }
        if (isdigit((unsigned char)c) || (c == '-' && i + 1 < q.size() && isdigit((unsigned char)q[i + 1]))) { std::string s; s += q[i++]; while (i < q.size() && (isdigit((unsigned char)q[i]) || q[i] == '.')) s += q[i++]; v.push_back({'n', s}); continue; }
        if (c == '\'') { std::string s; i++; while (i < q.size() && q[i] != '\'') s += q[i++]; i++; v.push_back({'s', s}); continue; }
        if (c == '$') { std::string s = "$"; i++; while (i < q.size() && isdigit((unsigned char)q[i])) s += q[i++]; v.push_back({'d', s}); continue; }
        for (const char* op : {"<=", ">=", "<>", "!=", "::"}) if (q.compare(i, 2, op) == 0) { v.push_back({'p', op}); i += 2; goto next; }
        v.push_back({'p', std::string(1, c)}); i++;
        next:;
    }
    return v;
}
struct Parser {
    std::vector<Tok> t; const std::vector<std::string>& par; size_t p = 0;
    bool is(const std::string& s) const { return p < t.size() && (t[p].k == 'w' || t[p].k == 'p') && t[p].s == s; }
    bool eat(const std::string& s) { if (is(s)) { p++; return true; } return false; }
    void need(const std::string& s) { if (!eat(s)) give_up("expected " + s); }
    std::string word() { if (p >= t.size() || t[p].k != 'w') give_up("expected a name"); return t[p++].s; }
    std::string column() { std::string c = word(); while (eat(".")) c = eat("*") ? "*" : word(); cast(); return c; }
    void cast() { while (eat("::")) word(); }
    long long number() {
        if (p < t.size() && (t[p].k == 'n' || t[p].k == 's')) { auto s = t[p++].s; cast(); return std::stoll(s); }
        if (p < t.size() && t[p].k == 'd') { size_t k = std::stoul(t[p++].s.substr(1)); cast(); if (k < 1 || k > par.size()) give_up("parameter"); return std::stoll(par[k - 1]); }
        if (eat("-")) return -number(); if (eat("+")) return number();
        give_up("expected a number");
    }
};
static std::optional<std::string> field(const Row& r, const std::string& c) { auto i = r.find(c); if (i == r.end()) give_up("no column " + c); return i->second; }
static std::optional<long long> num(const Row& r, const std::string& c) { auto v = field(r, c); if (!v || v->empty()) return std::nullopt; return std::stoll(*v); }
static bool disjunction(Parser& P, const Row& r);
static bool atom(Parser& P, const Row& r) {
    if (P.eat("not")) return !atom(P, r);
    if (P.eat("(")) { bool b = disjunction(P, r); P.need(")"); return b; }
    if (P.eat("true")) return true;
    std::string c = P.column();
    if (P.eat("is")) { bool n = P.eat("not"); P.need("null"); return field(r, c).has_value() == n; }
    bool neg = P.eat("not");
    if (P.eat("in")) { P.need("("); bool b = false; do { auto x = P.number(); auto v = num(r, c); if (v && *v == x) b = true; } while (P.eat(",")); P.need(")"); return b != neg; }
    if (P.eat("between")) { auto a = P.number(); P.need("and"); auto b = P.number(); auto v = num(r, c); return v && (a <= *v && *v <= b) != neg; }
    for (const char* op : {"<=", ">=", "<>", "!=", "=", "<", ">"}) if (P.eat(op)) { auto x = P.number(); auto v = num(r, c); if (!v) return false; std::string o = op;
        return o == "=" ? *v == x : o == "<" ? *v < x : o == ">" ? *v > x : o == "<=" ? *v <= x : o == ">=" ? *v >= x : *v != x; }
    give_up("condition");
}
static bool conjunction(Parser& P, const Row& r) { bool b = atom(P, r); while (P.eat("and")) { bool x = atom(P, r); b = b && x; } return b; }
static bool disjunction(Parser& P, const Row& r) { bool b = conjunction(P, r); while (P.eat("or")) { bool x = conjunction(P, r); b = b || x; } return b; }

struct Item { std::string fn, col, as; };
static Result* run(const std::string& q, const std::vector<std::string>& par) {
    log.push_back(q); auto* R = new Result; Parser P{lex(q), par};
    if (P.is("create") || P.is("set") || P.is("begin") || P.is("commit") || P.is("analyze") || P.is("rollback")) { R->st = PGRES_COMMAND_OK; return R; }
    P.need("select"); bool distinct = P.eat("distinct"); std::vector<Item> items; bool agg = false;
    do {
        Item it; if (P.eat("*")) it.col = "*"; else if (P.p + 1 < P.t.size() && P.t[P.p].k == 'w' && P.t[P.p + 1].s == "(") { it.fn = P.word(); P.need("("); if (P.eat("distinct")) it.fn += " distinct"; if (P.eat("*")) it.col = "*"; else if (P.p < P.t.size() && P.t[P.p].k == 'n') { it.col = "*"; P.p++; } else it.col = P.column(); P.need(")"); P.cast(); it.as = it.fn.substr(0, it.fn.find(' ')); agg = true; }
        else { it.col = P.column(); it.as = it.col; }
        if (P.eat("as")) it.as = P.word(); items.push_back(it);
    } while (P.eat(","));
    P.need("from"); P.word(); while (P.eat(".")) P.word(); if (P.p < P.t.size() && P.t[P.p].k == 'w' && !P.is("where") && !P.is("order") && !P.is("limit") && !P.is("group")) { P.eat("as"); P.word(); }
    std::vector<Row> rows; size_t mark = P.p;
    if (P.is("where")) { P.p++; size_t at = P.p; mark = at; size_t end = at; for (auto& r : table) { P.p = at; if (disjunction(P, r)) rows.push_back(r); end = P.p; }
        if (table.empty()) { Row none; for (auto c : {"id", "layer", "type", "control_q", "target_q", "param"}) none[c] = std::nullopt; disjunction(P, none); } else P.p = end; }
    else rows = table;
    if (P.eat("order")) { P.need("by"); std::vector<std::pair<std::string, bool>> by; do { auto c = P.column(); bool d = P.eat("desc"); P.eat("asc"); by.push_back({c, d}); } while (P.eat(","));
        std::stable_sort(rows.begin(), rows.end(), [&](const Row& a, const Row& b) { for (auto& [c, d] : by) { auto x = num(a, c), y = num(b, c); if (x != y) { bool lt = x && y ? *x < *y : x.has_value(); return d ? !lt : lt; } } return false; }); }
    long long lim = -1, off = 0; for (;;) { if (P.eat("limit")) lim = P.number(); else if (P.eat("offset")) off = P.number(); else break; }
    P.eat(";"); if (P.p < P.t.size()) give_up("cannot answer: " + q);
    if (agg) {
        std::vector<std::optional<std::string>> out;
        for (auto& it : items) {
            R->names.push_back(it.as); std::vector<long long> v; if (it.fn.empty()) give_up("mixed aggregate");
            for (auto& r : rows) if (it.col == "*") v.push_back(0); else if (auto x = num(r, it.col)) v.push_back(*x);
            if (it.fn == "count distinct") { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
            if (it.fn.rfind("count", 0) == 0) out.push_back(std::to_string(v.size()));
            else if (it.fn == "max" || it.fn == "min") out.push_back(v.empty() ? std::nullopt : std::optional<std::string>(std::to_string(it.fn == "max" ? *std::max_element(v.begin(), v.end()) : *std::min_element(v.begin(), v.end()))));
            else give_up("function " + it.fn);
        }
        R->rows.push_back(out);
    } else {
        std::vector<std::pair<std::string, std::string>> cols; for (auto& it : items) if (it.col == "*") for (auto c : {"id", "layer", "type", "control_q", "target_q", "param"}) cols.push_back({c, c}); else cols.push_back({it.col, it.as});
        for (auto& c : cols) R->names.push_back(c.second);
        for (auto& r : rows) { std::vector<std::optional<std::string>> o; for (auto& c : cols) o.push_back(field(r, c.first)); if (distinct && std::find(R->rows.begin(), R->rows.end(), o) != R->rows.end()) continue; R->rows.push_back(o); }
    }
    if (off) R->rows.erase(R->rows.begin(), R->rows.begin() + std::min<size_t>(off, R->rows.size()));
    if (lim >= 0 && R->rows.size() > (size_t)lim) R->rows.resize(lim);
    return R;
}
static Conn* connect(const std::string& port_asked) { auto* c = new Conn; if (down || port_asked != port) { c->st = CONNECTION_BAD; c->msg = "could not connect to server on port " + port_asked; } return c; }
}
using namespace fakepq;
extern "C" {
PGconn* PQconnectdb(const char* s) {
    std::string c = s, p = "5432"; auto k = c.find("port"); if (k != std::string::npos) { k += 4; while (k < c.size() && (c[k] == ' ' || c[k] == '=')) k++; bool q = k < c.size() && c[k] == '\''; if (q) k++; p.clear(); while (k < c.size() && c[k] != ' ' && c[k] != '\'') p += c[k++]; }
    return (PGconn*)connect(p);
}
PGconn* PQconnectdbParams(const char* const* k, const char* const* v, int) { std::string p = "5432"; for (; *k; k++, v++) if (!strcmp(*k, "port")) p = *v; return (PGconn*)connect(p); }
void PQfinish(PGconn* c) { delete (Conn*)c; }
ConnStatusType PQstatus(const PGconn* c) { return ((const Conn*)c)->st; }
char* PQerrorMessage(const PGconn* c) { return (char*)((const Conn*)c)->msg.c_str(); }
static std::vector<std::string> args(int n, const char* const* v) { std::vector<std::string> a; for (int i = 0; i < n; i++) a.push_back(v[i] ? v[i] : ""); return a; }
PGresult* PQexec(PGconn*, const char* q) { return (PGresult*)run(q, {}); }
PGresult* PQexecParams(PGconn*, const char* q, int n, const Oid*, const char* const* v, const int*, const int*, int) { return (PGresult*)run(q, args(n, v)); }
PGresult* PQprepare(PGconn* c, const char* name, const char* q, int, const Oid*) { ((Conn*)c)->prepared[name] = q; auto* r = new Result; r->st = PGRES_COMMAND_OK; return (PGresult*)r; }
PGresult* PQexecPrepared(PGconn* c, const char* name, int n, const char* const* v, const int*, const int*, int) { auto& m = ((Conn*)c)->prepared; if (!m.count(name)) give_up("prepared statement"); return (PGresult*)run(m[name], args(n, v)); }
ExecStatusType PQresultStatus(const PGresult* r) { return ((const Result*)r)->st; }
int PQntuples(const PGresult* r) { return (int)((const Result*)r)->rows.size(); }
int PQnfields(const PGresult* r) { return (int)((const Result*)r)->names.size(); }
char* PQfname(const PGresult* r, int i) { return (char*)((const Result*)r)->names.at(i).c_str(); }
int PQfnumber(const PGresult* r, const char* n) { auto& v = ((const Result*)r)->names; for (size_t i = 0; i < v.size(); i++) if (v[i] == n) return (int)i; return -1; }
char* PQgetvalue(const PGresult* r, int i, int j) { static char none[1] = {0}; auto& x = ((const Result*)r)->rows.at(i).at(j); return x ? (char*)x->c_str() : none; }
int PQgetisnull(const PGresult* r, int i, int j) { return !((const Result*)r)->rows.at(i).at(j).has_value(); }
int PQgetlength(const PGresult* r, int i, int j) { auto& x = ((const Result*)r)->rows.at(i).at(j); return x ? (int)x->size() : 0; }
void PQclear(PGresult* r) { delete (Result*)r; }
int PQconsumeInput(PGconn*) { return 1; }
PGnotify* PQnotifies(PGconn*) { return nullptr; }
void PQfreemem(void* p) { free(p); }
int PQsocket(const PGconn*) { return -1; }
}
