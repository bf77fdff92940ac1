// The Newton solver in a scripted environment: every callback answers from a script and is recorded.
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi.templates.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/lac/solvers_nonlinear.h>
#include <unistd.h>
#include <cmath>
#include <limits>
#include "common.h"
using namespace dealii;
using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;
using namespace NonLinearSolvers;
static const unsigned int N = 60;
static std::ostringstream out;

// the iterate: exponents of the steps along the unit directions
static std::string iterate(const BV &x)
{
  std::vector<long> e;
  for (unsigned k = 1; k < N; ++k)
    if (x.block(0)(k) != 0)
      {
        while (e.size() < k - 1) e.push_back(-7777);
        int ex;
        const double m = std::frexp(x.block(0)(k), &ex);
        e.push_back(m == 0.5 ? 1 - ex : -8888);
      }
  if (x.block(0)(0) != 0) e.push_back(-9999);
  return jl(e);
}
struct Exc : std::runtime_error { Exc() : std::runtime_error("linear solver") {} };
static void session(Tok &t)
{
  const int max = t.i(), abs = t.i(), rel = t.i(), damp = t.i(), upd = t.i(), pre = t.i(), tn = t.i(), tl = t.i(), reuse = t.i(), cb = t.i();
  NewtonSolverSolverControl stat(max, abs, rel / 1024.);
  DampedNewtonSolver<BV> solver(stat, NewtonSolverAdditionalData(upd, tn, tl, reuse, damp));
  std::vector<long> script;
  unsigned pos = 0, ndir = 0;
  long sumlin = 0, sumres = 0;
  double last = 0;
  std::ostringstream calls;
  auto answer = [&](const std::string &call, long def) {
    long a = pos < script.size() ? script[pos] : def;
    // an answer that makes no sense for this call is replaced by one that does
    switch (call[2])
      {
        case 'R': a = a == -1 ? 1 : a; break;
        case 'S': a = a == -2 ? 1 : a; break;
        case 'C': a = std::abs(a) % 3; break;
        default: a = 0;
      }
    ++pos;
    calls << (pos > 1 ? "," : "") << "{\"call\":" << call << ",\"a\":" << a << "}";
    if (pos > 2000) throw std::logic_error("endless");
    return a;
  };
  solver.reinit_vector = [](BV &v) { v.reinit(1u); v.block(0).reinit(N); v.collect_sizes(); };
  solver.residual = [&](const BV &x, BV &r) {
    const long a = answer("[\"R\"," + iterate(x) + "]", 0);
    r = 0.;
    r.block(0)(0) = a == -2 ? std::numeric_limits<double>::quiet_NaN() : a;
    last = r.block(0)(0);
    stat.increment_residual_evaluations(1);
    ++sumres;
  };
  solver.setup_jacobian = [&](const BV &x) { answer("[\"J\"," + iterate(x) + "]", 0); };
  if (pre) solver.setup_preconditioner = [&](const BV &x) { answer("[\"P\"," + iterate(x) + "]", 0); };
  solver.solve_with_jacobian = [&](const BV &r, BV &d) -> unsigned int {
    bool clean = true;
    for (unsigned k = 0; k < N; ++k) clean = clean && d.block(0)(k) == 0 && (k == 0 || r.block(0)(k) == 0);
    const long a = answer("[\"S\"," + std::to_string(clean ? std::lround(-r.block(0)(0)) : 7777777) + "]", 1);
    if (a == -1) throw Exc();
    ++ndir;
    d.block(0)(ndir) = 1.;
    stat.increment_linear_iterations(a);
    sumlin += a;
    return a;
  };
  if (cb) solver.check_iteration_status = [&](const unsigned int step, const double v, const BV &, const BV &r) {
    const long a = answer("[\"C\"," + std::to_string(step) + "," + std::to_string(std::isnan(v) ? -2 : r.l2_norm() == v ? std::lround(v) : 7777777) + "]", 1);
    return a == 0 ? SolverControl::iterate : a == 1 ? SolverControl::success : SolverControl::failure;
  };
  NonLinearSolverWrapper<BV, DampedNewtonSolver<BV>> wrapper(std::move(solver));
  const NewtonSolver<BV> &newton = wrapper;
  const int n = t.i();
  out << "{\"obs\":[";
  for (int s = 0; s < n; ++s)
    {
      if (s) out << ",";
      if (t.w() == "clear") { newton.clear(); out << "{\"do\":\"clear\"}"; continue; }
      script.clear(); pos = 0; ndir = 0; sumlin = sumres = 0; calls.str("");
      for (int m = t.i(); m > 0; --m) script.push_back(t.i());
      BV x(1);
      x.block(0).reinit(N);
      x.collect_sizes();
      std::string res = "ok";
      try { newton.solve(x); }
      catch (const ExcNewtonDidNotConverge &e)
        { res = e.message().find("damping") != std::string::npos ? "damping" : e.message().find("number of Newton") != std::string::npos ? "newton" : "other"; }
      catch (const Exc &) { res = "exc"; }
      // the verdict of the control can be asked for again
      const auto again = stat.check();
      out << "{\"do\":\"solve\",\"calls\":[" << calls.str() << "],\"res\":\"" << res << "\",\"x\":" << iterate(x) << ",\"it\":" << stat.n_newton_iterations()
          << ",\"lin\":" << stat.n_linear_iterations() << ",\"nres\":" << stat.n_residual_evaluations() << ",\"sumlin\":" << sumlin << ",\"sumres\":" << sumres
          << ",\"again\":" << (again == SolverControl::iterate ? 0 : again == SolverControl::success ? 1 : 2) << "}";
    }
  out << "]}";
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  for (auto &l : read_lines(argv[argc - 1]))
    {
      Tok t(l);
      t.w();
      out.str("");
      alarm(60);
      try { session(t); }
      catch (const std::exception &e) { out.str(""); out << "{\"exc\":1}"; std::cerr << e.what(); }
      std::cout << "@" << out.str() << std::endl;
    }
}
