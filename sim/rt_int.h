// Internal interface between the runtime (rt.cpp) and the driver (main.cpp). Not visible to workloads.
#pragma once
#include "rt.h"

static constexpr int MAXF = 310;

struct SchedDev // at its opno-th scheduling point, 'fiber' handed over to 'target' instead of doing the default thing
{
	int fiber;
	uint64_t opno;
	int target;
};
struct FaultDev
{
	int kind;
	int fiber;
	uint64_t idx; // opno for step-indexed kinds, occurrence number otherwise
	int64_t value;
};

struct RunParams
{
	// environment of the execution; stored in replay files
	uint64_t env_seed	  = 1; // entropy words
	uint32_t step_ns	  = 20;
	int preempt_plain	  = 0;
	uint32_t spin_limit	  = 2000;
	uint64_t budget1	  = 1500000; // after this many steps faults stop and scheduling becomes fair
	uint64_t budget2	  = 6000000; // ... and by this many everything must have finished
	uint32_t hwc		  = 4;
	// search strategy; used only when recording
	bool replay			  = false;
	int strategy		  = 0;
	double p			  = 0.1;
	int depth			  = 3;
	uint64_t est		  = 5000;
	uint32_t quantum	  = 5;
	double fprob[FK_COUNT] = {};
	uint64_t sched_seed	  = 1;
	// decisions (input when replaying, output when recording)
	std::vector<SchedDev> sched;
	std::vector<FaultDev> faults;
};

struct RunStats
{
	uint64_t hash = 0, ehash = 0, steps = 0, sim_ns = 0, switches = 0, preemptions = 0, fibers = 0;
	uint64_t fired[FK_COUNT] = {};
	bool drained			 = false;
	bool stopped			 = false; // the workload ended it
	bool abandoned			 = false; // got stuck for a reason that is not this property's business
	uint64_t kinds[8]		 = {}; // scheduling points by kind: lock unlock cond atomic thread time plain other
};

struct Violation
{
	std::string cls, msg;
};

// set by main: called (on whatever stack) when the current run violates; must not return
extern void (*rt_on_violation)(const Violation&);

void rt_init(const char* libpath); // loads the instrumented object
const Workload* rt_workload();
void rt_run(const Workload* w, const Scenario& sc, RunParams& rp, RunStats& st);
const RunStats& rt_stats();	  // of the current (maybe unfinished) run
RunParams& rt_params();
std::map<std::string, uint64_t>& rt_probes();
void rt_set_trace(FILE* f);
