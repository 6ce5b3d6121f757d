// What the scenarios share: building FVENS objects inside a simulated rank, and gathering what the ranks recorded.
#pragma once
#include "gmesh.h"
#include <petscksp.h>
#include "aconstants.hpp"
#include "mesh/mesh.hpp"
#include "mesh/meshreaders.hpp"
#include "mesh/meshpartitioning.hpp"
#include "mesh/ameshutils.hpp"
#include "spatial/flow_spatial.hpp"
#include "spatial/aoutput.hpp"
#include "utilities/afactory.hpp"
#include "utilities/casesolvers.hpp"
#include "utilities/controlparser.hpp"
#include "linalg/alinalg.hpp"
#include "linalg/tracevector.hpp"
#include "linalg/petscutils.hpp"

struct FlowCfg { fvens::FlowPhysicsConfig ph; fvens::FlowNumericsConfig nu; std::string desc; std::array<double, 4> uinf; std::map<int, int> bctype; };
enum CfgFlags { CFG_FARFIELD = 1, CFG_ORDER1 = 2, CFG_NOWENO = 4, CFG_SMOOTHFLUX = 8, CFG_JACFLUX = 16, CFG_NOINFLOW = 32, CFG_INVISCID = 64, CFG_WALLS = 128, CFG_JACBC = 256, CFG_NOLIM = 512, CFG_BOX = 1024 };
FlowCfg draw_flow(Job &J, const GMesh &g, int flags);
// state by global cell: free stream with a smooth and a rough disturbance of the given size; 0 disturbance below minlayer cells of the boundary
std::vector<double> draw_state(Job &J, const std::string &key, const GMesh &g, const FlowCfg &c, double amp, int minlayer = 0);
std::array<double, 4> freestream(double gamma, double Minf, double aoa);
double pressure(const double *u, double gamma);

struct Petsc { // PETSc of one rank
	Petsc(const std::vector<std::string> &args); void finalize(); std::vector<std::string> a; std::vector<char *> p; int argc; char **argv;
};
// read the mesh and distribute it: the given distribution, or the library's own ("trivial", "scotch")
fvens::UMesh<double, 2> rank_mesh(const std::string &file, const std::string &how, const std::vector<int> &dist);
void rec_gid(const fvens::UMesh<double, 2> &m);                             // records "gid"
std::vector<int> cell_of(const fvens::UMesh<double, 2> &m);
int ref_cell(int c); extern std::vector<int> g_order;                // global cell ids of the local cells
// a global array indexed by the ranks' "gid"; false and a violation if cells are missing or doubled
bool gather(const World &w, Report &R, const std::string &name, size_t n, int nc, std::vector<double> &out);
// largest difference relative to scale; reports a violation beyond tol
bool compare(Report &R, const std::string &what, const std::vector<double> &a, const std::vector<double> &b, int nc, double tol, const char *kind = "differs");
void set_state(Vec u, const fvens::UMesh<double, 2> &m, const std::vector<double> &g, bool ghosts = true);   // and update ghosts
double nan_count(const std::vector<double> &v);
std::vector<std::string> petsc_args(std::initializer_list<std::string> more = {});
// after a reordering of the cells: finds out by their position which cells they are (collective)
void locate_cells(const fvens::UMesh<double, 2> &m, const GMesh &g);
void rec_mesh(const fvens::UMesh<double, 2> &m);
void judge_mesh(Report &R, const World &w, const GMesh &g, const std::vector<int> *dist);
