#pragma once
#include "expr.h"

enum class SatRes { Sat, Unsat, Unknown };

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cache_hits = 0, model_hits = 0;
    double seconds = 0;
};
extern SolverStats SS;
extern unsigned solver_timeout_ms;
struct Kill {};                       // ends the current path
extern double (*solver_time_left)();  // seconds; solve() throws Kill when the budget is used up

typedef std::vector<u8> Model;
typedef std::shared_ptr<Model> ModelP;

// Is (conjunction of cs) and q satisfiable?  cs is known satisfiable with model `cur`.
// On Sat, `out` is a full model.
SatRes solve(const std::vector<Expr*>& cs, Expr* q, const Model& cur, ModelP& out);
void solver_dump_query(const std::vector<Expr*>& cs, Expr* q, const char* path);
void solver_reset_after_fork();
extern void (*solver_prof)(double, Expr*); // developer aid: called after every solver query
