// Every public header can be used together with every other one.
#include "solver/bc_periodic.h"
#include "solver/bc_copy_out.h"
#include "solver/bc_no_slip.h"
#include "solver/bc_free_slip.h"
#include "solver/bc_conducting_wall.h"
int use(qk::variable::variable_manager & m){
    qk::solver::bc_periodic a; qk::solver::bc_copy_out b; qk::solver::bc_no_slip c; qk::solver::bc_free_slip d; qk::solver::bc_conducting_wall e;
    std::vector<int> v(1,0); a.setup(v); b.setup(v); c.setup(v); d.setup(v); e.setup(v);
    a.solve(m); b.solve(m); c.solve(m); d.solve(m); e.solve(m);
    return 0;
}
