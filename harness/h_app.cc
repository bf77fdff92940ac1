// The whole sintering driver with a scripted nonlinear solver: one line per case, runs separated by "||".
#ifndef SINTERING_DIM
#  define SINTERING_DIM 2
#endif
#ifndef MAX_SINTERING_GRAINS
#  define MAX_SINTERING_GRAINS 3
#endif
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/revision.h>
#include <pf-applications/base/revision.h>
#include <pf-applications/sintering/free_energy.h>
#include <pf-applications/sintering/operator_sintering_generic.h>
#include <pf-applications/sintering/runner.h>
#include <pf-applications/sintering/tools.h>
#include <deal.II/trilinos/nox.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <cstdio>
#include "common.h"
using namespace dealii;
using namespace Sintering;
using V = LinearAlgebra::distributed::DynamicBlockVector<double>;

// script: c<n>:<s> converges after n iterations, adding s to the concentration; f fails; x linear solver fails;
// g<n>:<s> converges, but with a grain in a corner which was not there before
static std::vector<std::string> script;
static std::size_t pos;
static std::ostream *logs;
static double volume;
static int rank0;

static double total(const V &v, const unsigned b) { return v.block(b).mean_value() * v.block(b).size(); }
static double lowest(const V &v, const unsigned b)
{
  double m = 1e300;
  for (unsigned i = 0; i < v.block(b).locally_owned_size(); ++i) m = std::min(m, v.block(b).local_element(i));
  return Utilities::MPI::min(m, MPI_COMM_WORLD);
}
DEAL_II_NAMESPACE_OPEN
namespace TrilinosWrappers
{
template <> NOXSolver<V>::AdditionalData::AdditionalData(unsigned int a, double b, double c, unsigned int d, unsigned int e, bool f)
  : max_iter(a), abs_tol(b), rel_tol(c), threshold_nonlinear_iterations(d), threshold_n_linear_iterations(e), reuse_solver(f) {}
template <> NOXSolver<V>::NOXSolver(AdditionalData &, const Teuchos::RCP<Teuchos::ParameterList> &) {}
template <> NOXSolver<V>::~NOXSolver() {}
template <> void NOXSolver<V>::clear() {}
template <> unsigned int NOXSolver<V>::solve(V &x)
{
  const std::string o = pos < script.size() ? script[pos] : "c1:0";
  ++pos;
  // what is given to the solver
  std::vector<long> fp;
  for (unsigned b = 2; b < x.n_blocks(); ++b) fp.push_back(std::lround(1e4 * x.block(b).l2_norm()));
  const double m0 = lowest(x, 0);
  // the time derivative seen by the residual: weight of the new state, and the part of the old ones
  x.block(0).add(-m0);
  V r;
  r.reinit(x);
  // (a spatially varying state cannot be told from the old ones: use differences to the state given)
  residual(x, r);
  const double r0 = total(r, 0) / volume;
  x.block(0).add(1.);
  residual(x, r);
  const double r1 = total(r, 0) / volume;
  x.block(0).add(m0 - 1.);
  *logs << "@solve " << std::lround(1e3 * m0) << " " << std::lround(1e6 / 64 * (r1 - r0)) << " " << std::lround(1e6 / 64 * r0) << " "
        << x.block(0).size() << " " << x.n_blocks() << " " << jl(fp) << std::endl;
  if (o[0] == 'f' || o[0] == 'x')
    {
      for (unsigned b = 0; b < x.n_blocks(); ++b) x.block(b).add(.37 + b);
      if (o[0] == 'f') throw ExcNOXNoConvergence();
      throw SolverControl::NoConvergence(7, 1.);
    }
  const auto c = o.find(':');
  x.block(0).add(std::stod(o.substr(c + 1)) - m0);
  if (o[0] == 'g' && rank0)
    for (unsigned i = 0; i < std::min<unsigned>(4, x.block(2).locally_owned_size()); ++i) x.block(2).local_element(i) = 1.; // one cell in the corner
  return std::stoi(o.substr(1, c - 1));
}
} // namespace TrilinosWrappers
DEAL_II_NAMESPACE_CLOSE

static long U(const std::string &s) { const double x = std::stod(s) * 65536; return std::abs(x) < 1e9 ? std::lround(x) : 999999999; }
static std::string after(const std::string &l, const std::string &k)
{
  const auto p = l.find(k);
  if (p == std::string::npos) return "";
  return l.substr(p + k.size());
}
// turn the log into events
static std::string events(const std::string &text, const std::string &exc)
{
  std::istringstream in(text);
  std::string l, e, a;
  auto put = [&](const std::string &s) { e += (e.empty() ? "{" : ",{") + s + "}"; };
  long nt = -1, nl = -1, ft = -1, fl = -1, mx = -1, ngr = -1, nop = -1;
  bool gt = false;
  while (std::getline(in, l))
    {
      if (!(a = after(l, "@solve ")).empty())
        {
          std::istringstream q(a);
          long m, w, b, d, n;
          std::string f;
          q >> m >> w >> b >> d >> n >> f;
          put("\"k\":\"solve\",\"s\":" + std::to_string(m) + ",\"w\":" + std::to_string(w) + ",\"b\":" + std::to_string(b) + ",\"dofs\":" + std::to_string(d) + ",\"nb\":" +
              std::to_string(n) + ",\"fp\":" + f);
        }
      else if (!(a = after(l, "Execute refinement/coarsening")).empty()) put("\"k\":\"amr\"");
      else if (!(a = after(l, "Execute grain tracker(")).empty()) put("\"k\":\"gt\",\"init\":" + std::to_string(a[0] == 'i' ? 1 : 0));
      else if (!(a = after(l, "Reducing timestep, dt = ")).empty()) put("\"k\":\"fail\",\"dt\":" + std::to_string(U(a)));
      else if (!(a = after(l, "Increasing timestep, dt = ")).empty()) put("\"k\":\"grow\",\"dt\":" + std::to_string(U(a)));
      else if (!after(l, "Reducing mesh quality").empty() || l.find("Reducing mesh quality") != std::string::npos) put("\"k\":\"coarser\"");
      else if (!(a = after(l, "Saving restart data at t = ")).empty())
        {
          const auto u = a.rfind('_');
          put("\"k\":\"save\",\"t\":" + std::to_string(U(a)) + ",\"slot\":" + std::to_string(std::stol(a.substr(u + 1))));
        }
      else if (!(a = after(l, "Loading restart data at t = ")).empty()) put("\"k\":\"load\",\"t\":" + std::to_string(U(a)));
      else if (!(a = after(l, "Outputing data at t = ")).empty() && a.find("/contour_") == std::string::npos)
        {
          const auto sl = a.rfind('/'), d1 = a.find('.', sl), d2 = a.find('.', d1 + 1);
          put("\"k\":\"out\",\"t\":" + std::to_string(U(a)) + ",\"label\":\"" + a.substr(sl + 1, d1 - sl - 1) + "\",\"no\":" + a.substr(d1 + 1, d2 - d1 - 1));
        }
      else if (l.rfind("t = ", 0) == 0 && l.find("solved in") != std::string::npos)
        put("\"k\":\"step\",\"t\":" + std::to_string(U(l.substr(4))) + ",\"n\":" + std::to_string(std::stol(after(l, "t_n = "))) + ",\"dt\":" + std::to_string(U(after(l, ", dt = "))) +
            ",\"nl\":" + std::to_string(std::stol(after(l, "solved in "))) + ",\"lin\":" + std::to_string(std::stol(after(l, "iterations and "))));
      else if (!(a = after(l, "- n timesteps:")).empty()) nt = std::stol(a);
      else if (!(a = after(l, "- n non-linear iterations:")).empty()) nl = std::stol(a);
      else if (!(a = after(l, "- max dt:")).empty()) mx = U(a);
      else if (!(a = after(l, "- n failed tries:")).empty())
        put("\"k\":\"end\",\"n\":" + std::to_string(nt) + ",\"nl\":" + std::to_string(nl) + ",\"max\":" + std::to_string(mx) + ",\"failed\":" + std::to_string(std::stol(a)));
    }
  if (!exc.empty()) put("\"k\":\"exc\"");
  return "[" + e + "]";
}
static void wipe(const std::string &d)
{
  if (DIR *q = opendir(d.c_str()))
    {
      while (const dirent *f = readdir(q))
        if (f->d_name[0] != '.') std::remove((d + "/" + f->d_name).c_str());
      closedir(q);
    }
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  rank0 = Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0;
  std::string dir = argv[argc - 1];
  dir += ".scratch";
  if (rank0) mkdir(dir.c_str(), 0700);
  MPI_Barrier(MPI_COMM_WORLD);
  for (auto &l : read_lines(argv[argc - 1]))
    {
      if (rank0) wipe(dir);
      MPI_Barrier(MPI_COMM_WORLD);
      std::string out = "{\"obs\":[";
      std::istringstream in(l);
      std::string w;
      bool more = true, first = true;
      in >> volume;
      while (more)
        {
          std::vector<std::string> args{"h_app"};
          script.clear();
          pos = 0;
          bool sc = false;
          more = false;
          while (in >> w)
            {
              if (w == "||") { more = true; break; }
              if (w == "|") { sc = true; continue; }
              for (std::size_t p; (p = w.find("DIR")) != std::string::npos;) w.replace(p, 3, dir);
              (sc ? script : args).push_back(w);
            }
          std::vector<char *> av;
          for (auto &a : args) av.push_back(a.data());
          std::ostringstream text;
          std::ostringstream null;
          logs = rank0 ? (std::ostream *)&text : (std::ostream *)&null;
          std::string exc;
          alarm(200);
          try { Sintering::runner<SinteringOperatorGeneric, FreeEnergy>(av.size(), av.data(), *logs, *logs); }
          catch (const std::exception &e) { exc = e.what(); if (rank0) std::cerr << exc << std::endl; }
          if (getenv("APP_LOG") && rank0) std::cerr << text.str();
          out += (first ? "" : ",") + events(text.str(), exc);
          first = false;
          MPI_Barrier(MPI_COMM_WORLD);
        }
      if (rank0) std::cout << "@" << out << "]}" << std::endl;
    }
  if (rank0) { wipe(dir); rmdir(dir.c_str()); }
}
