#include "rt.hh"
#include <objscip/objscip.h>
#include "pctsp/stats.hh"
#include "pctsp/exception.hh"
#include <cmath>
#include <cstdlib>
#include <limits>
#include <sstream>
// event_handlers.cpp is not linked: only bounds rows use it
std::string timePointToString(TimePointUTC& t) { return "t" + std::to_string(t.time_since_epoch().count()); }
namespace fs = std::filesystem;
static unsigned u() { switch (rt::rnd(0, 4)) { case 0: return 0; case 1: return rt::rnd(0, 9); case 2: return std::numeric_limits<unsigned>::max(); case 3: return rt::rnd(0, 1000000000); } return 1; }
static double dbl() { switch (rt::rnd(0, 7)) { case 0: return 0.0; case 1: return rt::rnd(-50, 50); case 2: return 1e20; case 3: return -1e20; case 4: return rt::rnd(-1000000, 1000000) / 7.0; case 5: return std::numeric_limits<double>::infinity(); case 6: return rt::rnd(0, 1000000000) * 1e-12; } return rt::rnd(-1000000, 1000000) / 1000.0; }
static std::string str(const SummaryStats& s) { std::ostringstream o; o.precision(17); o << "{status=" << (int)s.status << ", lower_bound=" << s.lower_bound << ", upper_bound=" << s.upper_bound << ", " << s.num_cost_cover_disjoint_paths << ", " << s.num_cost_cover_shortest_paths << ", " << s.nconss_presolve_disjoint_paths << ", " << s.nconss_presolve_shortest_paths << ", " << s.num_cycle_cover << ", nodes=" << s.num_nodes << ", " << s.num_sec_disjoint_tour << ", " << s.num_sec_maxflow_mincut << "}"; return o.str(); }
static std::vector<std::string> split(const std::string& l) { std::vector<std::string> r; std::stringstream s(l); std::string x; while (std::getline(s, x, ',')) r.push_back(x); return r; }
static bool eq(double a, double b) { return a == b; }
static bool txt(double v, const std::string& s) { std::ostringstream o; o << v; return o.str() == s; }
void rt_run() {
    char tpl[] = "/tmp/c28-XXXXXX"; fs::path top = mkdtemp(tpl); struct Clean { fs::path p; ~Clean() { std::error_code e; fs::remove_all(p, e); } } clean{top};
    int n = 0;
    while (rt::more()) {
        ++n; fs::path f = top / ("s" + std::to_string(n % 3) + ".yaml");
        static const SCIP_Status st[] = {SCIP_STATUS_UNKNOWN, SCIP_STATUS_OPTIMAL, SCIP_STATUS_INFEASIBLE, SCIP_STATUS_TIMELIMIT, SCIP_STATUS_NODELIMIT};
        SummaryStats s = {st[rt::rnd(0, 4)], dbl(), dbl(), u(), u(), u(), u(), u(), rt::coin() ? (long long)rt::rnd(0, 100) : (1LL << 40) + rt::rnd(0, 100), u(), u()};
        SummaryStats c = s;
        rt::input("writeSummaryStatsToYaml / readSummaryStatsFromYaml " + str(s), true);
        writeSummaryStatsToYaml(s, f);
        rt::check(fs::exists(f), "the summary is written");
        SummaryStats r = readSummaryStatsFromYaml(f);
        rt::check(r.status == c.status, "status"); rt::check(eq(r.lower_bound, c.lower_bound), "lower_bound"); rt::check(eq(r.upper_bound, c.upper_bound), "upper_bound");
        rt::check(r.num_cost_cover_disjoint_paths == c.num_cost_cover_disjoint_paths, "num_cost_cover_disjoint_paths"); rt::check(r.num_cost_cover_shortest_paths == c.num_cost_cover_shortest_paths, "num_cost_cover_shortest_paths");
        rt::check(r.nconss_presolve_disjoint_paths == c.nconss_presolve_disjoint_paths, "nconss_presolve_disjoint_paths"); rt::check(r.nconss_presolve_shortest_paths == c.nconss_presolve_shortest_paths, "nconss_presolve_shortest_paths");
        rt::check(r.num_cycle_cover == c.num_cycle_cover, "num_cycle_cover"); rt::check(r.num_nodes == c.num_nodes, "num_nodes");
        rt::check(r.num_sec_disjoint_tour == c.num_sec_disjoint_tour, "num_sec_disjoint_tour"); rt::check(r.num_sec_maxflow_mincut == c.num_sec_maxflow_mincut, "num_sec_maxflow_mincut");
        if (n % 4 == 0) {
            fs::path g = top / "missing.yaml"; rt::input("readSummaryStatsFromYaml of a missing file", false);
            bool thrown = false; try { readSummaryStatsFromYaml(g); } catch (FileDoesNotExistError& e) { thrown = true; }
            rt::check(thrown, "reading a missing summary is reported");
        }
        std::vector<NodeStats> ns; for (int i = rt::rnd(0, 4); i > 0; --i) ns.push_back({dbl(), u(), u(), u(), u(), u(), u(), u(), dbl()});
        unsigned td = 0, tm = 0; for (auto& x : ns) { td += x.num_sec_disjoint_tour; tm += x.num_sec_maxflow_mincut; }
        std::ostringstream in; in << "writeNodeStatsToCSV of " << ns.size() << " nodes"; for (auto& x : ns) in << " {" << x.lower_bound << "," << x.node_id << "," << x.num_sec_disjoint_tour << "," << x.num_sec_maxflow_mincut << "," << x.num_cost_cover_disjoint_paths << "," << x.num_cost_cover_shortest_paths << "," << x.num_cost_cover_steiner_tree << "," << x.parent_id << "," << x.upper_bound << "}";
        rt::input(in.str(), ns.size() > 0);
        rt::check(numDisjointTourSECs(ns) == td, "total of disjoint tour cuts"); rt::check(numMaxflowMincutSECs(ns) == tm, "total of max flow cuts");
        fs::path cf = top / "n.csv"; writeNodeStatsToCSV(ns, cf);
        std::ifstream fi(cf); std::string l; std::vector<std::vector<std::string>> rows; while (std::getline(fi, l)) rows.push_back(split(l));
        rt::check(rows.size() == ns.size() + 1, "one row per node after the header");
        std::map<std::string, int> col; for (int i = 0; i < (int)rows[0].size(); ++i) col[rows[0][i]] = i;
        for (const char* k : {"lower_bound", "node_id", "num_sec_disjoint_tour", "num_sec_maxflow_mincut", "num_cost_cover_disjoint_paths", "num_cost_cover_shortest_paths", "num_cost_cover_steiner_tree", "parent_id", "upper_bound"}) rt::check(col.count(k), std::string("column ") + k);
        for (size_t i = 0; i < ns.size(); ++i) {
            auto& w = rows[i + 1]; NodeStats& x = ns[i]; rt::check(w.size() == rows[0].size(), "a row has one value per column");
            auto U = [&](const char* k, unsigned v) { rt::check(w[col[k]] == std::to_string(v), std::string("row value of ") + k); };
            U("node_id", x.node_id); U("num_sec_disjoint_tour", x.num_sec_disjoint_tour); U("num_sec_maxflow_mincut", x.num_sec_maxflow_mincut); U("num_cost_cover_disjoint_paths", x.num_cost_cover_disjoint_paths); U("num_cost_cover_shortest_paths", x.num_cost_cover_shortest_paths); U("num_cost_cover_steiner_tree", x.num_cost_cover_steiner_tree); U("parent_id", x.parent_id);
            rt::check(std::abs(std::strtod(w[col["lower_bound"]].c_str(), 0) - x.lower_bound) <= 1e-4 * std::abs(x.lower_bound) || txt(x.lower_bound, w[col["lower_bound"]]), "row value of lower_bound"); rt::check(std::abs(std::strtod(w[col["upper_bound"]].c_str(), 0) - x.upper_bound) <= 1e-4 * std::abs(x.upper_bound) || txt(x.upper_bound, w[col["upper_bound"]]), "row value of upper_bound");
        }
        std::vector<Bounds> bs; for (int i = rt::rnd(0, 3); i > 0; --i) bs.push_back({TimePointUTC(SubSeconds(rt::rnd(0, 1000000))), TimePointUTC(SubSeconds(rt::rnd(0, 1000000))), (double)rt::rnd(0, 9999), (double)rt::rnd(0, 9999), u()});
        std::ostringstream ib; ib << "writeBoundsToCSV of " << bs.size() << " rows"; for (auto& x : bs) ib << " {" << x.start_timestamp.time_since_epoch().count() << "," << x.end_timestamp.time_since_epoch().count() << "," << x.lower_bound << "," << x.upper_bound << "," << x.node_id << "}";
        rt::input(ib.str(), bs.size() > 0);
        fs::path bf = top / "b.csv"; writeBoundsToCSV(bs, bf);
        std::ifstream fb(bf); rows.clear(); while (std::getline(fb, l)) rows.push_back(split(l));
        rt::check(rows.size() == bs.size() + 1, "one row per bound after the header"); col.clear(); for (int i = 0; i < (int)rows[0].size(); ++i) col[rows[0][i]] = i;
        for (const char* k : {"start_timestamp", "end_timestamp", "lower_bound", "upper_bound", "node_id"}) rt::check(col.count(k), std::string("column ") + k);
        for (size_t i = 0; i < bs.size(); ++i) {
            auto& w = rows[i + 1]; rt::check(w.size() == rows[0].size(), "a row has one value per column");
            rt::check(w[col["start_timestamp"]] == timePointToString(bs[i].start_timestamp) && w[col["end_timestamp"]] == timePointToString(bs[i].end_timestamp), "row time stamps");
            rt::check(txt(bs[i].lower_bound, w[col["lower_bound"]]) && txt(bs[i].upper_bound, w[col["upper_bound"]]) && w[col["node_id"]] == std::to_string(bs[i].node_id), "row bounds and node");
        }
    }
}
