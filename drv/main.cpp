// simdrv: reads job lines "scenario seed key=value ..." on standard input and prints one JSON line per job.
#include "scen.h"
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>
#include <string.h>
static std::map<std::string, Scenario> &regs() { static std::map<std::string, Scenario> m; return m; }
ScenReg::ScenReg(const char *n, Scenario f) { regs()[n] = f; }
const std::map<std::string, Scenario> &scenarios() { return regs(); }
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o + "\""; }
int main(int argc, char **argv) {
	int pers = personality(0xffffffff); if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("FVS_REEXEC")) { personality(pers | ADDR_NO_RANDOMIZE); setenv("FVS_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
	unsetenv("OMP_NUM_THREADS"); unsetenv("PETSC_OPTIONS");
	world_global_init(); std::ios::sync_with_stdio(true);
	std::string line;
	while (std::getline(std::cin, line)) {
		std::istringstream is(line); std::string kind, t; Job J; if (!(is >> kind)) continue; is >> J.seed; while (is >> t) { size_t e = t.find('='); if (e != std::string::npos) J.kv[t.substr(0, e)] = t.substr(e + 1); }
		Report R; auto it = regs().find(kind); Totals t0 = totals; totals = Totals();
		if (J.has("only")) R.only = atoi(J.kv["only"].c_str()); if (J.has("decin")) R.decin = J.kv["decin"]; if (J.has("decout")) R.decout = J.kv["decout"];
		double w0 = sim::wall();
		if (it == regs().end()) R.error = "no scenario " + kind; else try { it->second(J, R); } catch (std::exception &e) { R.error = std::string("exception in the driver: ") + e.what(); }
		std::string o = "{\"kind\":" + js(kind) + fmt(",\"seed\":%llu,\"hash\":\"%016llx\",\"worlds\":%d,\"compared\":%llu,\"wall\":%.3f", (unsigned long long)J.seed, (unsigned long long)R.hash, R.worlds, (unsigned long long)R.compared, sim::wall() - w0);
		o += ",\"error\":" + js(R.error) + ",\"sample\":" + js(R.sample) + ",\"viol\":["; for (size_t k = 0; k < R.v.size(); k++) o += (k ? ",{" : "{") + std::string("\"kind\":") + js(R.v[k].kind) + ",\"text\":" + js(R.v[k].text) + fmt(",\"world\":%d}", R.v[k].world);
		o += "],\"cov\":["; for (size_t k = 0; k < R.coverage.size(); k++) o += (k ? "," : "") + js(R.coverage[k]);
		o += "],\"used\":{"; bool first = true; for (auto &kv : J.used) { o += (first ? "" : ",") + js(kv.first) + ":" + js(kv.second); first = false; }
		o += fmt("},\"tot\":{\"worlds\":%llu,\"steps\":%llu,\"msgs\":%llu,\"colls\":%llu,\"switches\":%llu,\"tpoints\":%llu,\"tswitches\":%llu,\"regions\":%llu,\"simtime\":%.6g", (unsigned long long)totals.worlds, (unsigned long long)totals.steps, (unsigned long long)totals.msgs, (unsigned long long)totals.colls, (unsigned long long)totals.switches, (unsigned long long)totals.tpoints, (unsigned long long)totals.tswitches, (unsigned long long)totals.regions, totals.simtime);
		o += ",\"hashes\":["; first = true; for (uint64_t h : totals.hashes) { o += (first ? "" : ",") + fmt("\"%016llx\"", (unsigned long long)h); first = false; } o += "],\"faults\":{"; first = true;
		for (int k = 0; k < sim::NFAULT; k++) if (totals.faults[k]) { o += (first ? "" : ",") + js(sim::fault_names[k]) + fmt(":%llu", (unsigned long long)totals.faults[k]); first = false; }
		o += "}}}"; std::cout << o << std::endl;
	}
	return 0;
}
