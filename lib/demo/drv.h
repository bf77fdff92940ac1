// The whole sintering driver with a scripted nonlinear solver.
// script: c<n>:<s> converges after n iterations to a state whose concentration is s above the initial one; f fails
#ifndef SINTERING_DIM
#  define SINTERING_DIM 2
#endif
#ifndef MAX_SINTERING_GRAINS
#  define MAX_SINTERING_GRAINS 3
#endif
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/revision.h>
#include <pf-applications/base/revision.h>
#include <pf-applications/sintering/free_energy.h>
#include <pf-applications/sintering/operator_sintering_generic.h>
#include <pf-applications/sintering/runner.h>
#include <pf-applications/sintering/tools.h>
#include <deal.II/trilinos/nox.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#include <cstdio>
#include <sstream>
#include <iostream>
using namespace dealii;
using namespace Sintering;
using V = LinearAlgebra::distributed::DynamicBlockVector<double>;
static std::vector<std::string> script;
static std::size_t pos;
static std::ostream *logs;
static double lowest(const V &v)
{
  double m = 1e300;
  for (unsigned i = 0; i < v.block(0).locally_owned_size(); ++i) m = std::min(m, v.block(0).local_element(i));
  return Utilities::MPI::min(m, MPI_COMM_WORLD);
}
DEAL_II_NAMESPACE_OPEN
namespace TrilinosWrappers
{
template <> NOXSolver<V>::AdditionalData::AdditionalData(unsigned int a, double b, double c, unsigned int d, unsigned int e, bool f)
  : max_iter(a), abs_tol(b), rel_tol(c), threshold_nonlinear_iterations(d), threshold_n_linear_iterations(e), reuse_solver(f) {}
template <> NOXSolver<V>::NOXSolver(AdditionalData &, const Teuchos::RCP<Teuchos::ParameterList> &) {}
template <> NOXSolver<V>::~NOXSolver() {}
template <> void NOXSolver<V>::clear() {}
template <> unsigned int NOXSolver<V>::solve(V &x)
{
  const std::string o = pos < script.size() ? script[pos] : "c9:0";
  if (++pos > 60) throw std::runtime_error("endless");
  *logs << "@solve " << std::lround(1e3 * lowest(x)) << std::endl;
  if (o[0] == 'f') { x.block(0).add(.37); throw ExcNOXNoConvergence(); }
  const auto c = o.find(':');
  x.block(0).add(std::stod(o.substr(c + 1)) - lowest(x));
  return std::stoi(o.substr(1, c - 1));
}
} // namespace TrilinosWrappers
DEAL_II_NAMESPACE_CLOSE
// lines of the log of a run in directory dir; the last one is "exception" if the run ended with one
static std::vector<std::string> drive(const std::string &dir, const std::string &options, const std::string &outcomes)
{
  std::vector<std::string> args{"demo"};
  std::string w;
  const std::string base = " --PrintTimeLoop=true --Approximation.FEDegree=1 --Geometry.CustomBoundingBox=true --Geometry.BoundingBox.Xmin=-3 --Geometry.BoundingBox.Xmax=3"
    " --Geometry.BoundingBox.Ymin=-1.5 --Geometry.BoundingBox.Ymax=1.5 --Geometry.InitialMesh=Divisions --Geometry.Divisions.Nx=8 --Geometry.Divisions.Ny=4 --Geometry.Divisions.Refinements=0"
    " --Geometry.GlobalRefinement=None --Geometry.InterfaceWidth=1 --NonLinearData.NonLinearSolverType=NOX --Restart.Prefix=DIR/r --Output.VtkPath=DIR --Output.OutputTimeInterval=0"
    " --Adaptivity.MaxRefinementDepth=0 --Adaptivity.MinRefinementDepth=0 --Adaptivity.RefinementFrequency=0 --GrainTracker.GrainTrackerFrequency=0 --TimeIntegration.DesirableNewtonIterations=5 ";
  std::istringstream in(options.substr(0, options.find(" --", 1)) + base + (options.find(" --", 1) == std::string::npos ? "" : options.substr(options.find(" --", 1))));
  while (in >> w)
    {
      for (std::size_t p; (p = w.find("DIR")) != std::string::npos;) w.replace(p, 3, dir);
      args.push_back(w);
    }
  script.clear();
  pos = 0;
  std::istringstream sc(outcomes);
  while (sc >> w) script.push_back(w);
  std::vector<char *> av;
  for (auto &a : args) av.push_back(a.data());
  std::ostringstream text;
  logs = &text;
  std::string exc;
  try { Sintering::runner<SinteringOperatorGeneric, FreeEnergy>(av.size(), av.data(), text, text); }
  catch (const std::exception &e) { exc = e.what(); }
  std::vector<std::string> r;
  std::istringstream t(text.str());
  while (std::getline(t, w)) r.push_back(w);
  if (!exc.empty()) r.push_back("exception");
  if (getenv("SHOW")) { std::cerr << text.str() << exc << std::endl; }
  return r;
}
// the numbers following key in all lines that contain it
static std::vector<double> grep(const std::vector<std::string> &log, const std::string &key, const std::string &also = "")
{
  std::vector<double> r;
  for (const auto &l : log)
    if (const auto p = l.find(key); p != std::string::npos && l.find(also) != std::string::npos) r.push_back(std::stod(l.substr(p + key.size())));
  return r;
}
static std::vector<double> times(const std::vector<std::string> &log) { std::vector<double> r; for (const auto &l : log) if (l.rfind("t = ", 0) == 0) r.push_back(std::stod(l.substr(4))); return r; }
struct Scratch
{
  std::string d;
  Scratch() { char t[] = "/tmp/demo-run.XXXXXX"; CHECK(mkdtemp(t)); d = t; }
  void wipe()
  {
    if (DIR *q = opendir(d.c_str()))
      {
        while (const dirent *f = readdir(q)) if (f->d_name[0] != '.') std::remove((d + "/" + f->d_name).c_str());
        closedir(q);
        rmdir(d.c_str());
      }
  }
};
