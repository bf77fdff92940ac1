// Calls of small units: stitching, periodicity graph, timer predicates, piecewise functions,
// bounding boxes, prime decompositions, mesh generation.
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi.templates.h>
#include <deal.II/base/point.h>
#include <deal.II/base/vectorization.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/numerics/vector_tools.h>

#include <pf-applications/base/timer.h>
#include <pf-applications/grain_tracker/distributed_stitching.h>
#include <pf-applications/grain_tracker/periodicity_graph.h>
#include <pf-applications/grid/bounding_box_filter.h>
#include <pf-applications/grid/grid_tools.h>
#include <pf-applications/numerics/functions.h>
#include "common.h"
using namespace dealii;

// a virtual clock: preempts the one of the C++ library while it is on
static bool clock_on = false;
static long clock_ns = 0;
#include <time.h>
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept
{
  if (clock_on) return time_point(duration(clock_ns));
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec));
}
}}}

static unsigned int rank0() { return Utilities::MPI::this_mpi_process(MPI_COMM_WORLD); }
static std::ostringstream out;
template <typename C> std::string js(const C &c)
{
  std::vector<long> v;
  for (auto x : c) v.push_back(x == numbers::invalid_unsigned_int ? -1L : (long)x);
  return jl(v);
}

void stitch(Tok &t)
{
  const unsigned int np = Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD), me = rank0();
  const long n = t.i();
  std::vector<unsigned int> own(n);
  for (auto &o : own) o = t.i() % np;
  std::vector<std::vector<std::tuple<unsigned int, unsigned int>>> in;
  const long ne = t.i();
  std::vector<std::vector<std::tuple<unsigned int, unsigned int>>> all(n);
  for (long k = 0; k < ne; ++k)
    {
      const long a = t.i(), b = t.i();
      if (own[a] != own[b]) all[a].emplace_back(own[b], (unsigned int)b);
    }
  for (long i = 0; i < n; ++i) if (own[i] == me) in.push_back(all[i]);
  const auto a = GrainTracker::perform_distributed_stitching(MPI_COMM_WORLD, in);
  const auto b = GrainTracker::perform_distributed_stitching_via_graph(MPI_COMM_WORLD, in);
  auto join = [](const auto &v) {
    std::vector<unsigned int> r;
    for (auto &x : Utilities::MPI::all_gather(MPI_COMM_WORLD, v)) r.insert(r.end(), x.begin(), x.end());
    return r;
  };
  out << "{\"own\":" << js(own) << ",\"a\":" << js(join(a)) << ",\"b\":" << js(join(b)) << "}";
}
void groups(Tok &t)
{
  const long n = t.i(), ne = t.i();
  GrainTracker::PeriodicityGraph g;
  for (long k = 0; k < ne; ++k) { const long a = t.i(), b = t.i(); g.add_connection(a, b); }
  std::vector<unsigned int> p(n, numbers::invalid_unsigned_int);
  const auto k = g.build_groups(p);
  out << "{\"empty\":" << jb(g.empty()) << ",\"k\":" << k << ",\"g\":" << js(p) << "}";
}
void timer(Tok &t)
{
  // type, start, interval (sixteenths), a second configuration or not, queries: time, clock
  const std::string type = t.w();
  const double st = t.i() / 16., iv = t.i() / 16.;
  clock_on = true; clock_ns = 0;
  TimerPredicate p(type, st, iv);
  const long n = t.i();
  bool same = true;
  out << "{\"ans\":[";
  for (long k = 0; k < n; ++k)
    {
      const double x = t.i() / 16.;
      clock_ns = std::max(0L, t.i() * 62500000L - (k ? 3000000L * rank0() : 0L));
      const bool r = p.now(x);
      same = same && Utilities::MPI::sum((int)r, MPI_COMM_WORLD) == (r ? (int)Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD) : 0);
      out << (k ? "," : "") << jb(r);
    }
  clock_on = false;
  out << "],\"agree\":" << jb(same) << "}";
}
void piecewise(Tok &t)
{
  const long ctor = t.i(), ext = t.i(), n = t.i();
  std::vector<std::pair<double, double>> v;
  for (long k = 0; k < n; ++k) { const double x = t.i(), y = t.i(); v.emplace_back(x, y); }
  std::unique_ptr<Function1DPiecewise<double>> f;
  if (ctor) f = std::make_unique<Function1DPiecewise<double>>(std::map<double, double>(v.begin(), v.end()), ext);
  else
    {
      f = std::make_unique<Function1DPiecewise<double>>(bool(ext));
      for (auto [x, y] : v) f->add_pair(x, y);
    }
  const long q = t.i();
  std::vector<long> r;
  for (long k = 0; k < q; ++k)
    {
      const double y = f->value(t.i() / 4.) * 1024;
      r.push_back(std::isfinite(y) && std::abs(y) < 2e9 ? std::lround(y) : 2000000000L);
    }
  out << "{\"y\":" << jl(r) << "}";
}
template <int dim>
void bbox(Tok &t)
{
  Point<dim> a, b;
  for (int d = 0; d < dim; ++d) a[d] = t.i();
  for (int d = 0; d < dim; ++d) b[d] = t.i();
  BoundingBoxFilter<dim> f(BoundingBox<dim>({a, b}));
  const long n = t.i();
  std::vector<long> pos, flags, filt;
  for (long k = 0; k < n; ++k)
    {
      Point<dim> p;
      Point<dim, VectorizedArray<double>> v;
      for (int d = 0; d < dim; ++d) { p[d] = t.i() / 2.; v[d] = p[d]; }
      // the lanes differ: only lane 0 carries the point
      for (unsigned int l = 1; l < VectorizedArray<double>::size(); ++l) for (int d = 0; d < dim; ++d) v[d][l] = a[d] + (b[d] - a[d]) / 2. * (l % 2 ? 1 : -9);
      pos.push_back((long)f.position(p));
      flags.push_back(f.point_inside(p) + 2 * f.point_outside(p) + 4 * f.point_boundary(p) + 8 * f.point_inside_or_boundary(p) + 16 * f.point_outside_or_boundary(p));
      const auto w = f.filter(v);
      bool ok = w[0] == 0 || w[0] == 1;
      for (unsigned int l = 1; l < VectorizedArray<double>::size(); ++l) ok = ok && w[l] == ((l % 2) ? 1 : 0);
      filt.push_back(ok ? (long)w[0] : -5);
    }
  const long m = t.i();
  std::vector<long> hit;
  for (long k = 0; k < m; ++k)
    {
      Point<dim> lo, hi;
      for (int d = 0; d < dim; ++d) lo[d] = t.i() / 2.;
      const double s = t.i() / 2.;
      for (int d = 0; d < dim; ++d) hi[d] = lo[d] + s;
      Triangulation<dim> tria;
      GridGenerator::hyper_rectangle(tria, lo, hi);
      hit.push_back(f.intersects(*tria.begin_active()));
    }
  const long m2 = t.i();
  std::ostringstream ls;
  for (long k = 0; k < m2; ++k)
    {
      Point<dim> p0, p1, o, nn;
      for (int d = 0; d < dim; ++d) p0[d] = t.i();
      for (int d = 0; d < dim; ++d) p1[d] = t.i();
      for (int d = 0; d < dim; ++d) o[d] = t.i();
      const long e = t.i();
      nn[e] = t.i();
      auto [has, fac, x] = intersect_line_plane(p0, p1, o, nn);
      ls << (k ? "," : "") << "{\"has\":" << jb(has) << ",\"fac\":" << std::lround(fac * 1024) << ",\"x\":[";
      for (int d = 0; d < dim; ++d) ls << (d ? "," : "") << std::lround(x[d] * 1024);
      ls << "]}";
    }
  out << "{\"pos\":" << jl(pos) << ",\"flags\":" << jl(flags) << ",\"filt\":" << jl(filt) << ",\"hit\":" << jl(hit) << ",\"line\":[" << ls.str() << "]}";
}
void primes(Tok &t)
{
  const long s = t.i(), e = t.i();
  const auto p = hpsint::get_primes(s, e);
  const long mp = t.i(), n = t.i();
  std::vector<unsigned int> sub;
  for (long k = 0; k < n; ++k) sub.push_back(t.i());
  std::vector<long> dec;
  if (mp > 1) for (auto x : sub) { auto q = hpsint::decompose_to_prime_tuple(x, mp); dec.push_back(q.first); dec.push_back(q.second); }
  const auto b = hpsint::internal::adjust_divisions_to_primes(mp, sub);
  out << "{\"p\":" << js(p) << ",\"dec\":" << jl(dec) << ",\"sub\":" << js(sub) << ",\"base\":" << b << "}";
}
template <int dim>
void mesh(Tok &t)
{
  const std::string kind = t.w();
  Point<dim> a, b;
  for (int d = 0; d < dim; ++d) a[d] = t.i();
  for (int d = 0; d < dim; ++d) b[d] = t.i();
  const double w = t.i() / 8., dpi = t.i() / 2.;
  const long per = t.i(), ref = t.i(), mp = t.i();
  const double lev0 = t.i() / 2.;
  const long dpe = t.i();
  const double r = t.i() / 8.;
  std::vector<unsigned int> sub;
  for (int d = 0; d < dim; ++d) sub.push_back(t.i());
  const auto R = ref == 0 ? hpsint::InitialRefine::None : ref == 1 ? hpsint::InitialRefine::Base : hpsint::InitialRefine::Full;
  parallel::distributed::Triangulation<dim> tria(MPI_COMM_WORLD);
  unsigned int del = 0;
  if (kind == "I") del = hpsint::create_mesh_from_interface(tria, a, b, w, dpi, per, R, mp, lev0, dpe, false);
  else if (kind == "R") del = hpsint::create_mesh_from_radius(tria, a, b, w, dpi, r, per, R, mp, dpe, false);
  else del = hpsint::create_mesh_from_divisions(tria, a, b, sub, per, ref, false);
  // coarse cells per direction, box, level, periodicity
  std::vector<std::set<long>> xs(dim);
  long vol = 0, ids = 1, perf = 0, nb = 0;
  Point<dim> lo = b, hi = a;
  for (auto &c : tria.cell_iterators_on_level(0))
    {
      for (int d = 0; d < dim; ++d)
        {
          xs[d].insert(std::lround(c->vertex(0)[d] * 4096));
          lo[d] = std::min(lo[d], c->vertex(0)[d]);
          hi[d] = std::max(hi[d], c->vertex((1 << dim) - 1)[d]);
        }
      for (auto f : c->face_indices())
        if (c->at_boundary(f))
          {
            ++nb;
            if (c->has_periodic_neighbor(f)) ++perf;
            if (c->face(f)->boundary_id() != f) ids = 0;
          }
    }
  double v = 0;
  for (auto &c : tria.active_cell_iterators()) if (c->is_locally_owned()) v += c->measure();
  v = Utilities::MPI::sum(v, MPI_COMM_WORLD);
  for (int d = 0; d < dim; ++d) v /= (b[d] - a[d]);
  out << "{\"del\":" << del << ",\"n\":[";
  for (int d = 0; d < dim; ++d) out << (d ? "," : "") << xs[d].size();
  out << "],\"olo\":[";
  for (int d = 0; d < dim; ++d) out << (d ? "," : "") << std::lround(lo[d] * 16);
  out << "],\"ohi\":[";
  for (int d = 0; d < dim; ++d) out << (d ? "," : "") << std::lround(hi[d] * 16);
  out << "],\"lev\":" << tria.n_global_levels() - 1 << ",\"vol\":" << std::lround(v * 1024) << ",\"ids\":" << ids
      << ",\"nb\":" << nb << ",\"perf\":" << perf << ",\"act\":" << tria.n_global_active_cells() << ",\"coarse\":" << tria.n_cells(0) << "}";
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  for (auto &l : read_lines(argv[argc - 1]))
    {
      Tok t(l);
      const std::string k = t.w();
      out.str("");
      alarm(60);
      try
        {
          if (k == "S") stitch(t);
          else if (k == "G") groups(t);
          else if (k == "T") timer(t);
          else if (k == "P") piecewise(t);
          else if (k == "B2") bbox<2>(t);
          else if (k == "B3") bbox<3>(t);
          else if (k == "R") primes(t);
          else if (k == "M2") mesh<2>(t);
          else if (k == "M3") mesh<3>(t);
        }
      catch (const std::exception &e) { out.str(""); out << "{\"exc\":1}"; std::cerr << e.what(); }
      if (rank0() == 0) std::cout << "@" << out.str() << std::endl;
      MPI_Barrier(MPI_COMM_WORLD);
    }
}
