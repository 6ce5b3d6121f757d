// One simulated job of N ranks, run from the parent process; and the description of a check's job.
#pragma once
#include "../sim/sim.h"
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <set>

typedef std::map<std::string, std::string> KV;

struct Job {
	uint64_t seed = 1;
	KV kv;                      // given explicitly (overrides)
	KV used;                    // everything that was decided, for the report
	uint64_t key(const std::string &k) const;
	bool has(const std::string &k) const { return kv.count(k) > 0; }
	int64_t i(const std::string &k, int64_t lo, int64_t hi);                 // uniform in [lo,hi]
	double d(const std::string &k, double lo, double hi);
	std::string s(const std::string &k, const std::vector<std::string> &choices);
	int64_t fix(const std::string &k, int64_t def);                           // a parameter that is not random unless overridden
	bool pct(const std::string &k, int percent);
};

struct Rec { int rank; int type; std::vector<double> d; std::vector<int64_t> i; std::string t; };

struct World {
	sim::Params p;
	std::string dir;                           // run directory (cwd of the ranks)
	std::vector<std::string> args;             // PETSc options
	// results
	std::string status;                        // ok, violation, failed (some rank ended with a failure), killed, crash, walltime
	std::string vkind, vtext;
	std::vector<std::string> outtext; std::vector<int> outcome, exitcode, sig, done;
	std::vector<std::string> out;              // captured stdout+stderr
	std::map<std::string, std::vector<Rec>> rec;
	std::vector<sim::FsLog> fslog; int64_t fsops = 0; std::vector<int64_t> allocs;
	uint64_t steps = 0; double simtime = 0; uint64_t hash = 0; uint64_t faults[sim::NFAULT] = {0};
	const std::vector<double> &dv(const std::string &n, int rank) const;
	const std::vector<int64_t> &iv(const std::string &n, int rank) const;
	std::string tv(const std::string &n, int rank) const;
	bool has(const std::string &n, int rank) const;
};

struct Totals { uint64_t worlds = 0, steps = 0, msgs = 0, colls = 0, switches = 0, tpoints = 0, tswitches = 0, regions = 0, maxdec = 0; double simtime = 0; uint64_t faults[sim::NFAULT] = {0}; std::set<uint64_t> hashes; };
extern Totals totals;

struct Violation { std::string kind, text; int world; };
struct Report {
	std::vector<Violation> v;          // judged violations
	std::string error;                 // simulator trouble: the run decides nothing
	std::string sample;                // one line about the case
	std::vector<std::string> coverage; // features exercised (distinct configurations)
	uint64_t compared = 0;             // values compared with a reference
	int worlds = 0;
	int only = -1; std::string decin, decout;   // replay
	int cur = -1;                      // index of the current world
	uint64_t hash = 0;
	void bad(const std::string &kind, const std::string &text) { v.push_back({kind, text, cur}); }
	bool slow_ok = false;              // a run that does not come to an end decides nothing here
	bool ok() const { return v.empty() && error.empty(); }
};

void world_global_init();
std::string scratch_dir();
void remove_tree(const std::string &d);
// run it; fills the results of w
void run_world(World &w, Report &R, std::function<int(int rank)> body);
// run a world that belongs to a search: draws its strategy from the job, honours replay. False: skipped.
void draw_strategy(Job &J, const std::string &pre, sim::Params &p, int nranks, int nthreads);
// judge the way a world ended; true if it ended well
bool expect_ok(const World &w, Report &R, const char *what);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string slurp(const std::string &f); bool exists(const std::string &f); void spew(const std::string &f, const std::string &s);
