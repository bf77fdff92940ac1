// Adaptive refinement: rounds of setting nodal values and refining, the mesh and the values before and after are reported.
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi.templates.h>
#include <deal.II/base/quadrature_lib.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/distributed/grid_refinement.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/numerics/error_estimator.h>
#include <deal.II/numerics/solution_transfer.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/grid/grid_tools.h>
#include <unistd.h>
#include <cmath>
#include "common.h"
using namespace dealii;
using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;
static std::ostringstream out;
static const double VS = 1600;

template <int dim>
struct Sys
{
  parallel::distributed::Triangulation<dim> tria{MPI_COMM_WORLD};
  FE_Q<dim> fe{1};
  DoFHandler<dim> dof{tria};
  AffineConstraints<double> constraints;
  IndexSet relevant;
  bool periodic = false;
  void setup()
  {
    dof.distribute_dofs(fe);
    relevant = DoFTools::extract_locally_relevant_dofs(dof);
    constraints.clear();
    constraints.reinit(relevant);
    DoFTools::make_hanging_node_constraints(dof, constraints);
    constraints.close();
  }
  void init(BV &v) const
  {
    for (unsigned b = 0; b < v.n_blocks(); ++b) v.block(b).reinit(dof.locally_owned_dofs(), relevant, MPI_COMM_WORLD);
    v.collect_sizes();
  }
  static std::array<long, 3> pos(const Point<dim> &p)
  {
    std::array<long, 3> r{{0, 0, 0}};
    for (int d = 0; d < dim; ++d) r[d] = std::lround(p[d]);
    return r;
  }
  // all active cells as [level, x, y, z], all points as [id, constrained, values]
  void report(BV &v)
  {
    v.update_ghost_values();
    std::vector<std::vector<long>> cells;
    std::map<long, std::vector<long>> pts;
    Vector<double> val(fe.n_dofs_per_cell());
    std::vector<types::global_dof_index> ids(fe.n_dofs_per_cell());
    long bad = 0;
    for (const auto &c : dof.active_cell_iterators())
      if (c->is_locally_owned())
        {
          const auto o = pos(c->vertex(0));
          cells.push_back({c->level(), o[0], o[1], o[2], (long)Utilities::MPI::this_mpi_process(MPI_COMM_WORLD)});
          c->get_dof_indices(ids);
          for (unsigned i = 0; i < c->n_vertices(); ++i)
            {
              const auto p = pos(c->vertex(i));
              const auto id = c->vertex_dof_index(i, 0);
              std::vector<long> e{constraints.is_constrained(id) ? 1 : 0};
              for (unsigned b = 0; b < v.n_blocks(); ++b)
                {
                  const double w = v.block(b)(id) * VS;
                  e.push_back(std::abs(w) < 1e8 ? std::lround(w) : 99999999);
                }
              auto &q = pts[p[0] + 1000 * p[1] + 1000000 * p[2]];
              if (!q.empty() && q != e) ++bad;
              q = e;
            }
        }
    std::vector<std::vector<long>> flat;
    for (auto &[k, e] : pts) { std::vector<long> f{k}; f.insert(f.end(), e.begin(), e.end()); flat.push_back(f); }
    const auto C = Utilities::MPI::gather(MPI_COMM_WORLD, cells);
    const auto P = Utilities::MPI::gather(MPI_COMM_WORLD, flat);
    std::set<std::vector<long>> cs;
    std::map<long, std::vector<long>> ps;
    unsigned long nc = 0;
    for (auto &x : C) for (auto &c : x) { cs.insert(c); ++nc; }
    for (auto &x : P) for (auto &p : x) { auto &q = ps[p[0]]; if (!q.empty() && q != p) ++bad; q = p; }
    out << "\"nc\":" << nc << ",\"bad\":" << Utilities::MPI::sum(bad, MPI_COMM_WORLD) << ",\"cells\":[";
    bool f = true;
    for (auto &c : cs) { out << (f ? "" : ",") << jl(c); f = false; }
    out << "],\"pts\":[";
    f = true;
    for (auto &[k, p] : ps) { out << (f ? "" : ",") << jl(p); f = false; }
    out << "]";
    v.zero_out_ghost_values();
  }
};
// what the error estimate alone would flag: for each cell how often it is marked, with tiny perturbations of the estimate
template <int dim>
static void estimate(Sys<dim> &s, const BV &v, const int b0, const int b1, const double top, const double bottom)
{
  const QGauss<dim - 1> quad(2);
  BV w(v.n_blocks());
  s.init(w);
  Vector<float> err(s.tria.n_active_cells()), one(s.tria.n_active_cells());
  for (int b = b0; b < b1; ++b)
    {
      w.block(b).copy_locally_owned_data_from(v.block(b));
      s.constraints.distribute(w.block(b));
      w.block(b).update_ghost_values();
      KellyErrorEstimator<dim>::estimate(s.dof, quad, {}, w.block(b), one);
      for (unsigned i = 0; i < err.size(); ++i) err[i] += one[i] * one[i];
    }
  const int N = 7;
  std::vector<int> nr(err.size()), nk(err.size());
  unsigned seed = 12345;
  for (int k = 0; k < N; ++k)
    {
      for (unsigned i = 0; i < err.size(); ++i)
        {
          seed = seed * 1103515245u + 12345u;
          const double f = k == 0 ? 0. : ((seed >> 16) % 2001 - 1000.) * 1e-8;
          one[i] = std::sqrt(err[i]) * (1 + f);
        }
      parallel::distributed::GridRefinement::refine_and_coarsen_fixed_fraction(s.tria, one, top, bottom);
      for (const auto &c : s.tria.active_cell_iterators())
        {
          if (c->is_locally_owned()) { nr[c->active_cell_index()] += c->refine_flag_set(); nk[c->active_cell_index()] += c->coarsen_flag_set(); }
          c->clear_refine_flag();
          c->clear_coarsen_flag();
        }
    }
  std::array<std::vector<std::vector<long>>, 4> L;
  for (const auto &c : s.dof.active_cell_iterators())
    if (c->is_locally_owned())
      {
        const auto o = Sys<dim>::pos(c->vertex(0));
        const std::vector<long> id{c->level(), o[0], o[1], o[2]};
        const int r = nr[c->active_cell_index()], q = nk[c->active_cell_index()];
        if (r > 0) L[r == N ? 0 : 1].push_back(id);
        if (q > 0) L[q == N ? 2 : 3].push_back(id);
      }
  const char *nm[] = {"R", "R2", "K", "K2"};
  for (int k = 0; k < 4; ++k)
    {
      out << ",\"" << nm[k] << "\":[";
      bool f = true;
      for (auto &x : Utilities::MPI::gather(MPI_COMM_WORLD, L[k])) for (auto &c : x) { out << (f ? "" : ",") << jl(c); f = false; }
      out << "]";
    }
}
template <int dim>
static void run(Tok &t)
{
  Sys<dim> s;
  std::vector<unsigned int> rep(dim);
  Point<dim> p0, p1;
  for (int d = 0; d < dim; ++d) { rep[d] = t.i(); p1[d] = 64. * rep[d]; }
  s.periodic = t.i();
  GridGenerator::subdivided_hyper_rectangle(s.tria, rep, p0, p1, true);
  if (s.periodic)
    {
      std::vector<GridTools::PeriodicFacePair<typename Triangulation<dim>::cell_iterator>> per;
      for (int d = 0; d < dim; ++d) GridTools::collect_periodic_faces(s.tria, 2 * d, 2 * d + 1, d, per);
      s.tria.add_periodicity(per);
    }
  s.tria.refine_global(t.i());
  const int nb = t.i(), rounds = t.i();
  out << "{\"obs\":[";
  s.setup();
  for (int r = 0; r < rounds; ++r)
    {
      const int which = t.i();          // overload
      const int top = t.i(), bottom = t.i(), lmin = t.i(), lmax = t.i(), b0 = t.i(), b1 = t.i();
      // fields: default value and boxes, in 1/100; at least one block
      BV v(nb);
      s.init(v);
      std::map<types::global_dof_index, Point<dim>> sp;
      for (const auto &c : s.dof.active_cell_iterators())
        if (c->is_locally_owned())
          for (unsigned i = 0; i < c->n_vertices(); ++i) sp[c->vertex_dof_index(i, 0)] = c->vertex(i);
      for (int b = 0; b < nb; ++b)
        {
          const double def = t.i() / 100.;
          for (auto &[i, p] : sp) if (v.block(b).in_local_range(i)) v.block(b)(i) = def;
          for (int n = t.i(); n > 0; --n)
            {
              double lo[3], hi[3];
              for (int d = 0; d < dim; ++d) lo[d] = t.i();
              for (int d = 0; d < dim; ++d) hi[d] = t.i();
              const double val = t.i() / 100.;
              for (auto &[i, p] : sp)
                {
                  bool in = true;
                  for (int d = 0; d < dim; ++d) in = in && p[d] >= lo[d] && p[d] <= hi[d];
                  if (in && v.block(b).in_local_range(i)) v.block(b)(i) = val;
                }
            }
        }
      for (int b = 0; b < nb; ++b) s.constraints.distribute(v.block(b));
      out << (r ? "," : "") << "{\"pre\":{";
      s.report(v);
      out << "}";
      if (which == 3) estimate(s, v, 0, nb, top / 100., bottom / 100.); else estimate(s, v, b0, b1, top / 100., bottom / 100.);
      out << ",\"post\":{";
      const QGauss<dim - 1> quad(2);
      int reinits = 0;
      if (which == 1)
        {
          v.update_ghost_values();
          const auto view = v.create_view(b0, b1);
          hpsint::coarsen_and_refine_mesh(*view, s.tria, s.dof, quad, top / 100., bottom / 100., lmin, lmax, 0.05, 0.95);
          s.setup();
          s.init(v);
        }
      else
        {
          std::function<void(BV &)> re = [&](BV &x) { s.setup(); s.init(x); ++reinits; };
          if (which == 2)
            hpsint::coarsen_and_refine_mesh(v, s.tria, s.dof, s.constraints, quad, top / 100., bottom / 100., lmin, lmax, re, 0.05, 0.95, b0, b1);
          else
            hpsint::coarsen_and_refine_mesh(v, s.tria, s.dof, s.constraints, quad, top / 100., bottom / 100., lmin, lmax, re);
        }
      s.report(v);
      out << "},\"reinits\":" << reinits << "}";
    }
  out << "]}";
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  for (auto &l : read_lines(argv[argc - 1]))
    {
      Tok t(l);
      out.str("");
      alarm(100);
      const std::string k = t.w();
      try { if (k == "A2") run<2>(t); else run<3>(t); }
      catch (const std::exception &e) { out.str(""); out << "{\"exc\":1}"; std::cerr << e.what(); }
      if (Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0) std::cout << "@" << out.str() << std::endl;
      MPI_Barrier(MPI_COMM_WORLD);
    }
}
