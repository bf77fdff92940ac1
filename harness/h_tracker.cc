// Drives GrainTracker::Tracker over histories of nodal fields.
#include "common.h"
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/mpi.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/lac/affine_constraints.h>
#include <deal.II/numerics/vector_tools.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <unistd.h>
#include <cmath>

using namespace dealii;
using Number = double;
using VectorType = LinearAlgebra::distributed::DynamicBlockVector<Number>;

static const long VS = 64; // value scale on top of 1/1024
static const bool timeline = getenv("H_TIMING") != nullptr;

template <int dim>
using Key = std::array<int, dim>;
template <int dim>
Key<dim> key(const Point<dim> &p, double s = 1)
{
  Key<dim> k;
  for (int d = 0; d < dim; ++d) k[d] = std::lround(p[d] * s);
  return k;
}

static std::string exact(double v, double s)
{
  const double w = v * s;
  const double r = std::round(w);
  if (std::abs(w - r) > 1e-6 * std::max(1., std::abs(w)) || !(std::abs(w) < 2e9)) return "-999999999";
  return std::to_string((long)r);
}
static std::string rnd(double v, double s)
{
  const double w = v * s;
  if (!(std::abs(w) < 2e9)) return "-999999999";
  return std::to_string(std::lround(w));
}

template <int dim>
void go(Tok &t)
{
  const MPI_Comm comm = MPI_COMM_WORLD;
  const unsigned int rank = Utilities::MPI::this_mpi_process(comm);
  parallel::distributed::Triangulation<dim> tria(comm);
  std::vector<unsigned int> rep(dim);
  Point<dim> p0, p1;
  for (int d = 0; d < dim; ++d) { rep[d] = t.i(); p1[d] = 4 * rep[d]; }
  const bool periodic = t.i();
  GridGenerator::subdivided_hyper_rectangle(tria, rep, p0, p1, true);
  if (periodic)
    {
      std::vector<GridTools::PeriodicFacePair<typename parallel::distributed::Triangulation<dim>::cell_iterator>> pv;
      for (int d = 0; d < dim; ++d)
        GridTools::collect_periodic_faces(tria, 2 * d, 2 * d + 1, d, pv);
      tria.add_periodicity(pv);
    }
  const long npass = t.i();
  for (long k = 0; k < npass; ++k)
    {
      const long np = t.i();
      std::vector<Point<dim>> pts(np);
      for (auto &p : pts) for (int d = 0; d < dim; ++d) p[d] = t.i() * 0.5;
      for (auto &c : tria.active_cell_iterators())
        if (c->is_locally_owned() && c->level() < 2)
          for (auto &p : pts)
            {
              bool in = true;
              for (int d = 0; d < dim; ++d)
                in = in && std::abs(p[d] - c->center()[d]) < c->extent_in_direction(d) / 2;
              if (in) c->set_refine_flag();
            }
      tria.execute_coarsening_and_refinement();
    }
  FE_Q<dim> fe(1);
  MappingQ<dim> mapping(1);
  DoFHandler<dim> dh(tria);
  dh.distribute_dofs(fe);
  const IndexSet relevant = DoFTools::extract_locally_relevant_dofs(dh);
  AffineConstraints<Number> cons;
  cons.reinit(relevant);
  DoFTools::make_hanging_node_constraints(dh, cons);
  cons.close();
  std::map<types::global_dof_index, Point<dim>> sp;
  for (auto &c : dh.active_cell_iterators())
    if (!c->is_artificial())
      {
        std::vector<types::global_dof_index> idx(fe.n_dofs_per_cell());
        c->get_dof_indices(idx);
        for (const unsigned int v : c->vertex_indices()) sp[idx[v]] = c->vertex(v);
      }
  const auto part = std::make_shared<Utilities::MPI::Partitioner>(dh.locally_owned_dofs(), relevant, comm);

  const unsigned int n_ops0 = t.i();
  const bool greedy = t.i(), allow = t.i(), fast = t.i();
  const unsigned int max_ops = t.i(), repr = t.i();
  const double thr = t.i() / 1024., thr_new = t.i() / 1024., ratio = t.i() / 1000., fixed = t.i() / 1000.;
  const unsigned int off = t.i();
  const bool old_remap = t.i();
  const unsigned int restart_after = t.i(); // re-create the tracker (save/load grains) before step number
  using TT = GrainTracker::Tracker<dim, Number>;
  auto make = [&]() {
    return std::make_shared<TT>(dh, tria, greedy, allow, fast, max_ops, (GrainTracker::GrainRepresentation)repr, thr,
                                thr_new, ratio, fixed, off, false, false, old_remap);
  };
  auto tr = make();

  // gather mesh
  std::vector<int> loc;
  for (auto &c : dh.active_cell_iterators())
    if (c->is_locally_owned())
      {
        const auto lo = key<dim>(c->vertex(0));
        for (int d = 0; d < dim; ++d) loc.push_back(lo[d]);
        loc.push_back(std::lround(c->extent_in_direction(0)));
        std::vector<types::global_dof_index> idx(fe.n_dofs_per_cell());
        c->get_dof_indices(idx);
        for (auto i : idx) loc.push_back(i);
      }
  const auto all = Utilities::MPI::gather(comm, loc);
  std::vector<int> ln;
  for (auto i : dh.locally_owned_dofs())
    {
      ln.push_back(i);
      for (auto k : key<dim>(sp.at(i))) ln.push_back(k);
    }
  const auto alln = Utilities::MPI::gather(comm, ln);
  std::map<int, Key<dim>> node_of;
  std::map<Key<dim>, int> num; // 1-based in coordinate order
  std::map<Key<dim>, int> cellnum;
  if (rank == 0)
    {
      for (auto &a : alln)
        for (unsigned int i = 0; i < a.size(); i += dim + 1)
          {
            Key<dim> k;
            for (int d = 0; d < dim; ++d) k[d] = a[i + 1 + d];
            node_of[a[i]] = k;
            num[k] = 0;
          }
      int n = 0;
      for (auto &[k, v] : num) v = ++n;
      std::map<Key<dim>, std::vector<int>> cells;
      const unsigned int w = dim + 1 + (1 << dim);
      for (auto &a : all)
        for (unsigned int i = 0; i < a.size(); i += w)
          {
            Key<dim> k;
            for (int d = 0; d < dim; ++d) k[d] = a[i + d];
            std::vector<int> v(a.begin() + i, a.begin() + i + w);
            for (unsigned int j = dim + 1; j < w; ++j) v[j] = num.at(node_of.at(v[j]));
            cells[k] = v;
          }
      std::cout << "@{\"nn\":" << num.size() << ",\"cells\":[";
      bool f = true;
      n = 0;
      for (auto &[k, v] : cells)
        {
          std::cout << (f ? "" : ",") << jl(v);
          f = false;
          cellnum[k] = n++;
        }
      std::cout << "],\"steps\":[" << std::flush;
    }

  std::vector<std::shared_ptr<VectorType>> sols;
  auto mk = [&](unsigned int nb, double base) {
    auto v = std::make_shared<VectorType>(nb);
    for (unsigned int b = 0; b < nb; ++b)
      {
        v->block(b).reinit(part);
        if (b < off)
          for (auto i : dh.locally_owned_dofs()) v->block(b)[i] = (base + b * 16 + (i % 7)) / 1024.;
      }
    return v;
  };
  sols = {mk(off + n_ops0, 1), mk(off + n_ops0, 3)};
  unsigned int n_ops = n_ops0;

  auto out_values = [&](VectorType &v) { // op blocks, then marker blocks check
    std::vector<std::pair<int, double>> l;
    const unsigned int nb = v.n_blocks();
    for (unsigned int b = off; b < nb; ++b)
      for (auto i : dh.locally_owned_dofs()) l.emplace_back(i, v.block(b)[i]);
    const auto g = Utilities::MPI::gather(comm, l);
    std::ostringstream o;
    if (rank == 0)
      {
        std::vector<std::vector<double>> val(nb - off, std::vector<double>(num.size(), NAN));
        for (auto &a : g)
          {
            const unsigned int n = a.size() / std::max(1u, nb - off);
            for (unsigned int k = 0; k < a.size(); ++k) val[k / n][num.at(node_of.at(a[k].first)) - 1] = a[k].second;
          }
        o << "[";
        for (unsigned int b = 0; b + off < nb; ++b)
          {
            o << (b ? "," : "") << "[";
            for (unsigned int i = 0; i < val[b].size(); ++i) o << (i ? "," : "") << exact(val[b][i], 1024. * VS);
            o << "]";
          }
        o << "]";
      }
    return o.str();
  };
  // ghost entries must agree with their owners after an update; markers untouched
  auto markers_ok = [&](VectorType &v, double base) {
    unsigned int bad = 0;
    for (unsigned int b = 0; b < off; ++b)
      for (auto i : dh.locally_owned_dofs())
        if (v.block(b)[i] != (base + b * 16 + (i % 7)) / 1024.) bad = 1;
    return Utilities::MPI::max(bad, comm) == 0;
  };
  auto out_grains = [&]() {
    std::ostringstream o;
    o << "[";
    bool f = true;
    for (auto &[id, g] : tr->get_grains())
      {
        o << (f ? "" : ",") << "{\"id\":" << (long)id << ",\"own\":" << (long)(int)g.get_grain_id() << ",\"op\":" << g.get_order_parameter_id()
          << ",\"old\":" << g.get_old_order_parameter_id() << ",\"dyn\":" << (int)g.get_dynamics()
          << ",\"max\":" << exact(g.get_max_value(), 1024. * VS) << ",\"mea\":" << exact(g.get_measure(), 1)
          << ",\"rmax\":" << rnd(g.get_max_radius(), 100) << ",\"segs\":[";
        f = false;
        bool fs = true;
        for (auto &s : g.get_segments())
          {
            o << (fs ? "" : ",") << "{\"c\":[";
            fs = false;
            for (int d = 0; d < dim; ++d) o << (d ? "," : "") << rnd(s.get_center()[d], 100);
            o << "],\"r\":" << rnd(s.get_radius(), 100) << ",\"mea\":" << exact(s.get_measure(), 1)
              << ",\"max\":" << exact(s.get_max_value(), 1024. * VS) << "}";
          }
        o << "]}";
      }
    o << "]";
    return o.str();
  };
  auto out_labels = [&]() {
    std::vector<long> l;
    for (auto &c : dh.active_cell_iterators())
      if (c->is_locally_owned())
        {
          const auto lo = key<dim>(c->vertex(0));
          for (int d = 0; d < dim; ++d) l.push_back(lo[d]);
          for (unsigned int b = 0; b < n_ops; ++b)
            {
              long a = -1, s = 0;
              const auto p = tr->get_particle_index(b, c->global_active_cell_index());
              if (p != numbers::invalid_unsigned_int)
                {
                  const auto gs = tr->get_grain_and_segment(b, p);
                  a = gs.first == numbers::invalid_unsigned_int ? -2 : (long)gs.first;
                  s = gs.second;
                }
              l.push_back(a); l.push_back(s);
            }
        }
    const auto g = Utilities::MPI::gather(comm, l);
    std::ostringstream o;
    if (rank == 0)
      {
        std::vector<std::vector<std::string>> lab(n_ops, std::vector<std::string>(cellnum.size(), "[-9,0]"));
        for (auto &a : g)
          for (unsigned int i = 0; i < a.size(); i += dim + 2 * n_ops)
            {
              Key<dim> k;
              for (int d = 0; d < dim; ++d) k[d] = a[i + d];
              for (unsigned int b = 0; b < n_ops; ++b)
                lab[b][cellnum.at(k)] = "[" + std::to_string(a[i + dim + 2 * b]) + "," + std::to_string(a[i + dim + 2 * b + 1]) + "]";
            }
        o << "[";
        for (unsigned int b = 0; b < n_ops; ++b) o << (b ? "," : "") << jl(lab[b]);
        o << "]";
      }
    return o.str();
  };
  auto agree = [&](const std::string &s) {
    const auto g = Utilities::MPI::all_gather(comm, s);
    for (auto &x : g) if (x != g[0]) return false;
    return true;
  };

  const long nsteps = t.i();
  bool dead = false;
  bool firstout = true;
  bool reassigned = false;
  for (long st = 0; st < nsteps; ++st)
    {
      const std::string a = t.w();
      std::ostringstream o;
      if (restart_after && st == (long)restart_after && !dead)
        {
          std::vector<GrainTracker::Grain<dim>> gs;
          tr->save_grains(std::back_inserter(gs));
          tr = make();
          tr->load_grains(gs.begin(), gs.end());
        }
      if (a == "F")
        {
          for (unsigned int b = 0; b < n_ops; ++b)
            {
              const auto bl = sols[0]->n_blocks() > off + b;
              if (bl) { sols[0]->block(off + b) = 0; sols[1]->block(off + b) = 0; }
            }
          sols[0]->zero_out_ghost_values(); sols[1]->zero_out_ghost_values();
          const long nf = t.i();
          for (long b = 0; b < nf; ++b)
            {
              std::map<Key<dim>, double> m;
              const long n = t.i();
              for (long i = 0; i < n; ++i)
                {
                  Key<dim> k;
                  for (int d = 0; d < dim; ++d) k[d] = t.i();
                  m[k] = t.i() / 1024.;
                }
              if (dead || b >= (long)n_ops) continue;
              for (auto i : dh.locally_owned_dofs())
                {
                  auto it = m.find(key<dim>(sp.at(i)));
                  if (it != m.end()) sols[0]->block(off + b)[i] = it->second;
                }
              cons.distribute(sols[0]->block(off + b));
              sols[0]->block(off + b).zero_out_ghost_values();
              sols[1]->block(off + b).equ(-3.0, sols[0]->block(off + b));
            }
          continue;
        }
      if (a == "C")
        {
          const long n = t.i();
          std::map<long, long> m;
          for (long i = 0; i < n; ++i) { const long x = t.i(); m[x] = t.i(); }
          if (dead) continue;
          tr->custom_reassignment([&](auto &grains) {
            long k = 0;
            for (auto &[id, g] : grains) { if (m.count(k)) g.set_order_parameter_id(m[k]); ++k; }
          });
          reassigned = true;
          continue;
        }
      if (a == "K")
        {
          // assign by place: field, lower corner of a cell inside the grain, new order parameter
          const long n = t.i();
          std::map<long, long> m;
          for (long i = 0; i < n; ++i)
            {
              const long b = t.i();
              Key<dim> k;
              for (int d = 0; d < dim; ++d) k[d] = t.i();
              const long to = t.i();
              long id = -1;
              if (!dead && b < (long)n_ops)
                for (auto &c : dh.active_cell_iterators())
                  if (c->is_locally_owned() && key<dim>(c->vertex(0)) == k)
                    {
                      const auto p = tr->get_particle_index(b, c->global_active_cell_index());
                      if (p != numbers::invalid_unsigned_int) id = tr->get_grain_and_segment(b, p).first;
                    }
              id = Utilities::MPI::max(id, comm);
              if (id >= 0) m[id] = to;
            }
          if (dead) continue;
          tr->custom_reassignment([&](auto &grains) {
            for (auto &[id, g] : grains) if (m.count(id)) g.set_order_parameter_id(m[id]);
          });
          reassigned = true;
          continue;
        }
      if (dead) { if (a == "M") {} continue; }
      o << (firstout ? "" : ",") << "{\"a\":\"" << a << "\"";
      firstout = false;
      if (a == "I" || a == "T" || a == "IS" || a == "TS")
        {
          const std::string v = out_values(*sols[0]);
          o << ",\"v\":" << v << ",\"nops\":" << n_ops;
          // callers hand over solutions with or without up to date ghost values; some work with clones
          static unsigned int ncalls = 0;
          ++ncalls;
          const bool ghosted = ncalls % 2;
          if (ncalls % 5 == 3) tr = tr->clone();
          if (ghosted) for (auto &s : sols) s->update_ghost_values();
          std::tuple<unsigned int, bool, bool> ret;
          int exc = 0;
          try
            {
              const bool skip = a.size() == 2;
              ret = a[0] == 'I' ? tr->initial_setup(*sols[0], n_ops, skip) : tr->track(*sols[0], n_ops, skip);
            }
          catch (const GrainTracker::ExcGrainsInconsistency &e) { exc = 1; }
          catch (const std::exception &e) { exc = 2; }
          const bool kept = exc || sols[0]->has_ghost_elements() == ghosted;
          for (auto &s : sols) s->zero_out_ghost_values();
          const bool same = agree(std::to_string(exc)) && kept;
          if (exc)
            {
              dead = true;
              o << ",\"exc\":" << exc << ",\"agree\":" << jb(same) << "}";
            }
          else
            {
              reassigned = std::get<1>(ret);
              const std::string g = out_grains();
              const auto act = tr->get_active_order_parameters();
              std::ostringstream all;
              all << g << jl(act) << std::get<0>(ret) << std::get<1>(ret) << std::get<2>(ret);
              o << ",\"exc\":0,\"agree\":" << jb(agree(all.str()) && same) << ",\"grains\":" << g << ",\"active\":" << jl(act)
                << ",\"ncol\":" << std::get<0>(ret) << ",\"reas\":" << jb(std::get<1>(ret)) << ",\"opch\":" << jb(std::get<2>(ret));
              o << ",\"lab\":" << out_labels();
              o << ",\"nseg\":" << tr->n_segments() << ",\"num\":[";
              bool f = true;
              for (auto &[id, gr] : tr->get_grains())
                for (unsigned int s = 0; s < gr.n_segments(); ++s)
                  {
                    long idx = -1;
                    try { idx = tr->get_grain_segment_index(id, s); } catch (const std::exception &) {}
                    o << (f ? "" : ",") << "[" << id << "," << s << "," << idx << "]";
                    f = false;
                  }
              o << "]}";
            }
        }
      else if (a == "M")
        {
          unsigned int nn = 0;
          for (auto &[id, g] : tr->get_grains()) nn = std::max(nn, g.get_order_parameter_id() + 1);
          if (tr->get_grains().empty()) nn = n_ops;
          o << ",\"nold\":" << n_ops << ",\"nnew\":" << nn;
          const std::string v0 = out_values(*sols[0]), v1 = out_values(*sols[1]);
          int exc = 0;
          unsigned int nre = 0;
          for (auto &s : sols) s->update_ghost_values();
          try
            {
              if (reassigned && nn <= n_ops) nre = tr->remap(sols);
              if (nn != n_ops) for (auto &s : sols) s->reinit(nn + off);
              if (reassigned && nn > n_ops) nre = tr->remap(sols);
            }
          catch (const std::exception &e) { exc = 2; }
          for (auto &s : sols) s->zero_out_ghost_values();
          n_ops = nn;
          const bool same = agree(std::to_string(exc) + "," + std::to_string(nre));
          const std::string w0 = out_values(*sols[0]), w1 = out_values(*sols[1]);
          o << ",\"exc\":" << exc << ",\"agree\":" << jb(same) << ",\"nre\":" << nre << ",\"v\":" << v0 << ",\"w\":" << w0
            << ",\"v2\":" << v1 << ",\"w2\":" << w1 << ",\"grains\":" << out_grains()
            << ",\"mark\":" << jb(markers_ok(*sols[0], 1) && markers_ok(*sols[1], 3)) << "}";
          if (exc) dead = true;
        }
      if (rank == 0) std::cout << o.str() << std::flush;
    }
  if (rank == 0) std::cout << "]}" << std::endl;
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  for (auto &l : read_lines(argv[argc - 1]))
    {
      Tok t(l);
      const long dim = t.i();
      alarm(60);
      dim == 2 ? go<2>(t) : go<3>(t);
      MPI_Barrier(MPI_COMM_WORLD);
    }
}
