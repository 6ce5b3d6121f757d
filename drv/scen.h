#pragma once
#include "fv.h"
typedef void (*Scenario)(Job &, Report &);
struct ScenReg { ScenReg(const char *name, Scenario f); };
const std::map<std::string, Scenario> &scenarios();
#define SCENARIO(name) static void scen_##name(Job &J, Report &R); static ScenReg reg_##name(#name, scen_##name); static void scen_##name(Job &J, Report &R)
// which rank and thread counts a scenario uses
int draw_ranks(Job &J, const std::string &pre, int lo, int hi);
// the layouts of one case: a reference world (one process, one thread), then worlds with random ranks, threads, partitions and schedules
struct Layout { std::string mesh, how; std::vector<int> dist, order; int P, T; std::string desc; };
void each_layout(Job &J, Report &R, const GMesh &g, const std::string &label, const std::vector<std::string> &args, std::function<int(const World &, const Layout &)> body, std::function<void(World &, World *ref, const Layout &, int)> judge);
struct SurfRow { double x, y, cp, cf; };
double entropy_error(const GMesh &g, const FlowCfg &c, const std::vector<double> &U);
std::array<double, 4> surface_coeffs(const GMesh &g, const FlowCfg &c, int tag, const std::vector<double> &U, const std::vector<double> &gr, std::vector<SurfRow> &rows);
