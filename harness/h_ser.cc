// Saving and loading solution vectors with an adaptive mesh: sequences of refine, set, renumber, save, load.
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi.templates.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_renumbering.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/fe/fe.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <pf-applications/base/solution_serialization.h>
#include <algorithm>
#include <unistd.h>
#include <cmath>
#include "common.h"
using namespace dealii;
using V = LinearAlgebra::distributed::Vector<double>;
static std::ostringstream out;
static std::string dir;

template <int dim>
struct Sys
{
  parallel::distributed::Triangulation<dim> tria{MPI_COMM_WORLD};
  DoFHandler<dim> dof{tria};
  std::vector<V> vec;
  Sys(const std::vector<unsigned int> &rep, const bool periodic)
  {
    Point<dim> p0, p1;
    for (int d = 0; d < dim; ++d) p1[d] = 64. * rep[d];
    GridGenerator::subdivided_hyper_rectangle(tria, rep, p0, p1, true);
    if (periodic)
      {
        std::vector<GridTools::PeriodicFacePair<typename Triangulation<dim>::cell_iterator>> per;
        for (int d = 0; d < dim; ++d) GridTools::collect_periodic_faces(tria, 2 * d, 2 * d + 1, d, per);
        tria.add_periodicity(per);
      }
  }
  void setup(const int degree, const int nb, const int renumber)
  {
    dof.distribute_dofs(FE_Q<dim>(degree));
    if (renumber == 1) DoFRenumbering::Cuthill_McKee(dof);
    if (renumber == 2)
      {
        std::vector<types::global_dof_index> to;
        for (const auto i : dof.locally_owned_dofs()) to.push_back(i);
        for (std::size_t i = 0; i + 1 < to.size(); ++i) std::swap(to[i], to[i + (i * 7919 + 13) % (to.size() - i)]);
        dof.renumber_dofs(to);
      }
    const auto rel = DoFTools::extract_locally_relevant_dofs(dof);
    vec.clear();
    vec.resize(nb);
    for (auto &v : vec) v.reinit(dof.locally_owned_dofs(), rel, MPI_COMM_WORLD);
  }
  std::map<types::global_dof_index, Point<dim>> points() const
  {
    MappingQ<dim> map(1);
    return DoFTools::map_dofs_to_support_points(map, dof);
  }
  static long value(const Point<dim> &p, const int b, const long salt)
  {
    long v = salt - 1000 * b;
    const long f[3] = {1, 131, 17};
    for (int d = 0; d < dim; ++d) v += f[d] * (b + 1) * std::lround(p[d]);
    return v;
  }
  void set(const long salt)
  {
    for (auto &[i, p] : points())
      for (unsigned b = 0; b < vec.size(); ++b)
        if (vec[b].in_local_range(i)) vec[b](i) = value(p, b, salt) / 16.;
  }
  void report()
  {
    std::vector<std::vector<long>> mine;
    const auto sp = points();
    for (const auto i : dof.locally_owned_dofs())
      {
        const auto &p = sp.at(i);
        std::vector<long> e;
        for (int d = 0; d < dim; ++d) e.push_back(std::lround(p[d]));
        for (auto &v : vec) { const double w = v(i) * 16; e.push_back(std::abs(w) < 1e8 ? std::lround(w) : 99999999); }
        mine.push_back(e);
      }
    std::vector<std::vector<long>> all;
    for (auto &x : Utilities::MPI::gather(MPI_COMM_WORLD, mine)) all.insert(all.end(), x.begin(), x.end());
    std::sort(all.begin(), all.end());
    out << "{\"cells\":" << tria.n_global_active_cells() << ",\"dofs\":" << dof.n_dofs() << ",\"pts\":[";
    bool f = true;
    for (auto &e : all) { out << (f ? "" : ",") << jl(e); f = false; }
    out << "]}";
  }
};
template <int dim>
static void run(Tok &t)
{
  std::vector<unsigned int> rep(dim);
  for (auto &r : rep) r = t.i();
  const bool per = t.i();
  int degree = t.i(), nb = t.i();
  auto s = std::make_unique<Sys<dim>>(rep, per);
  s->setup(degree, nb, 0);
  out << "{\"obs\":[";
  const int nops = t.i();
  for (int k = 0; k < nops; ++k)
    {
      const std::string op = t.w();
      const int a = t.i(), b = t.i(), c = t.i();
      bool threw = false;
      if (op == "refine")
        {
          for (const auto &cell : s->tria.active_cell_iterators())
            if (cell->is_locally_owned())
              {
                unsigned h = a * 2654435761u;
                for (int d = 0; d < dim; ++d) h = (h ^ (unsigned)std::lround(cell->center()[d])) * 2654435761u;
                h >>= 16;
                if ((int)(h % 100) < b && cell->level() < 3) cell->set_refine_flag();
                else if ((int)(h % 100) > 100 - c) cell->set_coarsen_flag();
              }
          s->tria.execute_coarsening_and_refinement();
          s->setup(degree, nb, 0);
        }
      else if (op == "space") { degree = a; nb = b; s->setup(degree, nb, c); }
      else if (op == "set") s->set(a);
      else if (op == "save")
        {
          const std::string f = dir + "/slot" + std::to_string(a);
          parallel::distributed::SolutionSerialization<dim, V> ser(s->dof);
          if (b == 0) { std::vector<V *> q; for (auto &v : s->vec) q.push_back(&v); ser.add_vectors(q); }
          else if (b == 1) { std::vector<const V *> q; for (auto &v : s->vec) q.push_back(&v); ser.add_vectors(q); }
          else for (auto &v : s->vec) ser.add_vectors(std::vector<V *>{&v});
          if (c) for (auto &v : s->vec) v.update_ghost_values();
          ser.save(f + "_vectors");
          s->tria.save(f + "_tria");
          for (auto &v : s->vec) v.zero_out_ghost_values();
        }
      else if (op == "load")
        {
          const std::string f = dir + "/slot" + std::to_string(a);
          s = std::make_unique<Sys<dim>>(rep, per);
          s->tria.load(f + "_tria");
          s->tria.repartition();
          s->setup(degree, nb, c);
          for (auto &v : s->vec) v = -7;
          parallel::distributed::SolutionSerialization<dim, V> ser(s->dof);
          std::vector<V *> q;
          for (auto &v : s->vec) q.push_back(&v);
          ser.add_vectors(q);
          try { ser.load(f + "_vectors"); } catch (const std::exception &) { threw = true; }
        }
      out << (k ? "," : "") << "{\"threw\":" << (threw ? 1 : 0) << ",\"s\":";
      s->report();
      out << "}";
    }
  out << "]}";
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  dir = argv[argc - 1];
  dir = dir.substr(0, dir.rfind('/'));
  for (auto &l : read_lines(argv[argc - 1]))
    {
      Tok t(l);
      out.str("");
      alarm(100);
      const int d = t.i();
      if (d == 2) run<2>(t); else run<3>(t);
      if (Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0) std::cout << "@" << out.str() << std::endl;
      MPI_Barrier(MPI_COMM_WORLD);
    }
}
