// Sequences of operations on dynamic block vectors, solution histories and time integrator data.
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi.templates.h>
#include <deal.II/base/partitioner.h>
#include <deal.II/lac/la_parallel_vector.h>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/array.hpp>
#include <map>
#include <functional>

#include <pf-applications/base/memory_consumption.h>
#include <pf-applications/lac/dynamic_block_vector.h>
#include <pf-applications/time_integration/solution_history.h>
#include <pf-applications/time_integration/time_integrator_data.h>
#include <pf-applications/time_integration/time_schemes.h>
#include <unistd.h>
#include <cmath>
#include "common.h"
using namespace dealii;
using BV = LinearAlgebra::distributed::DynamicBlockVector<double>;
using Blk = BV::BlockType;

static unsigned int me() { return Utilities::MPI::this_mpi_process(MPI_COMM_WORLD); }
static unsigned int np() { return Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD); }
static std::ostringstream out;

static std::shared_ptr<const Utilities::MPI::Partitioner> layout(unsigned int n)
{
  static std::map<unsigned int, std::shared_ptr<const Utilities::MPI::Partitioner>> cache;
  auto &p = cache[n];
  if (!p)
    {
      IndexSet own(n), gh(n);
      const unsigned int a = n * me() / np(), b = n * (me() + 1) / np();
      own.add_range(a, b);
      if (b < n && b > 0) gh.add_index(b);
      if (a > 0 && a < n) gh.add_index(a - 1);
      p = std::make_shared<const Utilities::MPI::Partitioner>(own, gh, MPI_COMM_WORLD);
    }
  return p;
}
// all values of a block, on every process
static std::vector<double> global(const Blk &b)
{
  std::vector<double> v(b.size(), 0.);
  for (auto i : b.locally_owned_elements()) v[i] = b(i);
  if (!v.empty()) Utilities::MPI::sum(v, MPI_COMM_WORLD, v);
  return v;
}
static std::string nums(const std::vector<double> &v)
{
  std::ostringstream o;
  o << "[";
  for (unsigned i = 0; i < v.size(); ++i)
    {
      const double r = std::round(v[i]);
      if (!(std::abs(v[i]) < 1e9)) o << (i ? "," : "") << 999999999;
      else if (std::abs(v[i] - r) > 1e-6) o << (i ? "," : "") << 888888888;
      else o << (i ? "," : "") << (long)r;
    }
  o << "]";
  return o.str();
}
static long num(double x)
{
  if (!(std::abs(x) < 1e9)) return 999999999;
  return std::abs(x - std::round(x)) > 1e-6 * std::max(1., std::abs(x)) ? 888888888 : std::lround(x);
}
// 1: ghosted and every ghost equals its owner, 0: not ghosted and ghosts zero, 3: anything else
static int ghosts(const Blk &b)
{
  if (b.size() == 0) return 0;
  const auto v = global(b);
  bool same = true, zero = true;
  for (auto i : b.get_partitioner()->ghost_indices())
    {
      const double x = b.begin()[b.get_partitioner()->global_to_local(i)];
      same = same && x == v[i];
      zero = zero && x == 0.;
    }
  same = Utilities::MPI::min((int)same, MPI_COMM_WORLD);
  zero = Utilities::MPI::min((int)zero, MPI_COMM_WORLD);
  const int g = b.has_ghost_elements();
  const int g0 = Utilities::MPI::min(g, MPI_COMM_WORLD), g1 = Utilities::MPI::max(g, MPI_COMM_WORLD);
  return (g0 == 1 && same) ? 1 : (g1 == 0 && zero) ? 0 : 3;
}
static bool same_shape(const BV &a, const BV &b)
{
  if (a.n_blocks() != b.n_blocks()) return false;
  for (unsigned i = 0; i < a.n_blocks(); ++i) if (a.block(i).size() != b.block(i).size()) return false;
  return true;
}
static void observe(const std::vector<std::unique_ptr<BV>> &v, unsigned i)
{
  const BV &x = *v[i];
  std::size_t tot = 0;
  out << "{\"np\":" << np() << ",\"b\":[";
  for (unsigned b = 0; b < x.n_blocks(); ++b) { out << (b ? "," : "") << nums(global(x.block(b))); tot += x.block(b).size(); }
  out << "],\"g\":[";
  for (unsigned b = 0; b < x.n_blocks(); ++b) out << (b ? "," : "") << ghosts(x.block(b));
  out << "],\"size\":" << x.size();
  // element access on the owning process
  std::vector<double> at(tot, 0.);
  std::vector<double> own;
  if (x.size() == tot)
    {
      std::size_t start = 0;
      for (unsigned b = 0; b < x.n_blocks(); start += x.block(b).size(), ++b)
        for (auto k : x.block(b).locally_owned_elements()) at[start + k] = x(start + k);
      if (tot) Utilities::MPI::sum(at, MPI_COMM_WORLD, at);
      std::vector<unsigned int> mine;
      if (tot) for (auto k : x.locally_owned_elements()) mine.push_back(k);
      // blocks without any layout are owned by everybody, but have no entries
      for (const auto &g : Utilities::MPI::all_gather(MPI_COMM_WORLD, mine)) for (auto k : g) own.push_back(k);
      std::sort(own.begin(), own.end());
    }
  out << ",\"at\":" << nums(at) << ",\"own\":" << nums(own);
  out << ",\"l1\":" << num(x.l1_norm()) << ",\"l2\":" << num(std::pow(x.l2_norm(), 2.)) << ",\"linf\":" << num(x.linfty_norm())
      << ",\"zero\":" << jb(x.all_zero()) << ",\"mean\":" << (tot ? num(x.mean_value() * tot) : 0) << ",\"dot\":[";
  for (unsigned j = 0; j < v.size(); ++j) out << (j ? "," : "") << (same_shape(x, *v[j]) ? num(x * *v[j]) : 0);
  out << "]}";
}
static void vectors(Tok &t)
{
  const int n = t.i();
  std::vector<std::unique_ptr<BV>> v;
  for (int i = 0; i < 3; ++i) v.push_back(std::make_unique<BV>());
  out << "{\"obs\":[";
  for (int s = 0; s < n; ++s)
    {
      const std::string k = t.w();
      const unsigned i = t.i() - 1;
      double ret = 0;
      BV &x = *v[i];
      auto V = [&]() -> BV & { return *v[t.i() - 1]; };
      if (k == "new") v[i] = std::make_unique<BV>(t.i());
      else if (k == "fill")
        {
          const long m = t.i(), z = t.i();
          for (unsigned b = 0; b < x.n_blocks(); ++b)
            {
              x.block(b).reinit(layout(m));
              for (auto e : x.block(b).locally_owned_elements()) x.block(b)(e) = (z + 7 * (b + 1) + 3 * (e + 1)) % 11 - 5.;
            }
          x.collect_sizes();
        }
      else if (k == "resize") x.reinit((unsigned int)t.i());
      else if (k == "like") x.reinit(V());
      else if (k == "likeset") { x.reinit(V(), true); x = (double)t.i(); }
      else if (k == "assign") x = V();
      else if (k == "equ") { const double a = t.i(); x.equ(a, V()); }
      else if (k == "copy") v[i] = std::make_unique<BV>(V());
      else if (k == "moveassign") { BV &y = V(); x = std::move(y); y = BV(0); }
      else if (k == "movector") { BV &y = V(); v[i] = std::make_unique<BV>(std::move(y)); y = BV(0); }
      else if (k == "iter") { BV &y = V(); v[i] = std::make_unique<BV>(y.blocks.begin(), y.blocks.end()); }
      else if (k == "view") { BV &y = V(); const unsigned a = t.i(), b = t.i(); v[i] = y.create_view(a, b); }
      else if (k == "cview")
        {
          const BV &y = V(); const unsigned a = t.i(), b = t.i();
          auto w = y.create_view(a, b);
          v[i] = std::unique_ptr<BV>(const_cast<BV *>(w.release()));
        }
      else if (k == "move") { const unsigned a = t.i(), b = t.i(); x.move_block(a, b); }
      else if (k == "remove") x.remove_block(t.i());
      else if (k == "insert") { BV &y = V(); const unsigned a = t.i(), b = t.i(); x.insert_block(y.block_ptr(a), b); }
      else if (k == "give") { const unsigned a = t.i(); BV &y = V(); const unsigned b = t.i(); y.insert_block(x.remove_block(a), b); }
      else if (k == "swap") x.swap(V());
      else if (k == "addc") x.add((double)t.i());
      else if (k == "setc") x = (double)t.i();
      else if (k == "mul") x *= (double)t.i();
      else if (k == "half") x /= 2.;
      else if (k == "add") { const double a = t.i(); x.add(a, V()); }
      else if (k == "add2") { const double a = t.i(); BV &y = V(); const double b = t.i(); x.add(a, y, b, V()); }
      else if (k == "sadd") { const double a = t.i(); x.sadd(a, V()); }
      else if (k == "sadd2") { const double a = t.i(), b = t.i(); x.sadd(a, b, V()); }
      else if (k == "scale") x.scale(V());
      else if (k == "plus") x += V();
      else if (k == "minus") x -= V();
      else if (k == "own") x.copy_locally_owned_data_from(V());
      else if (k == "adddot") { const double a = t.i(); BV &y = V(); ret = x.add_and_dot(a, y, V()); }
      else if (k == "write")
        {
          const unsigned p = t.i(); const double a = t.i();
          unsigned q = p, b = 0;
          while (b < x.n_blocks() && q >= x.block(b).size()) q -= x.block(b++).size();
          if (b < x.n_blocks() && x.block(b).in_local_range(q)) x[p] = a;
        }
      else if (k == "ghost") x.update_ghost_values();
      else if (k == "unghost") x.zero_out_ghost_values();
      else { std::cerr << "unknown operation " << k; std::abort(); }
      out << (s ? "," : "") << "{\"ret\":" << num(ret) << ",\"v\":[";
      for (unsigned m = 0; m < 3; ++m) { out << (m ? "," : ""); observe(v, m); }
      out << "]}";
    }
  out << "]}";
}
using Hist = TimeIntegration::SolutionHistory<BV>;
static std::string blocks_of(const std::vector<const Blk *> &v)
{
  std::string r = "[";
  for (unsigned i = 0; i < v.size(); ++i) r += (i ? "," : "") + nums(global(*v[i]));
  return r + "]";
}
static void history(Tok &t)
{
  const int n = t.i();
  std::unique_ptr<Hist> h;
  out << "{\"obs\":[";
  for (int s = 0; s < n; ++s)
    {
      const std::string k = t.w();
      std::string ret = "[]";
      auto sub = [&]() { const bool a = t.i(), b = t.i(), c = t.i(); return h->filter(a, b, c); };
      if (k == "start")
        {
          const int K = t.i(), nb = t.i(), bs = t.i();
          h = std::make_unique<Hist>(K);
          auto all = h->get_all_solutions();
          for (int i = 0; i < K; ++i)
            {
              all[i]->reinit(nb);
              for (int b = 0; b < nb; ++b)
                {
                  auto &x = all[i]->block(b);
                  x.reinit(layout(bs));
                  for (auto e : x.locally_owned_elements()) x(e) = (5 * (i + 1) + 7 * (b + 1) + 3 * (e + 1)) % 9 - 4.;
                }
              all[i]->collect_sizes();
            }
        }
      else if (k == "cur") h->get_current_solution().add((double)t.i());
      else if (k == "commit") h->commit_old_solutions();
      else if (k == "recent") h->set_recent_old_solution(h->get_current_solution());
      else if (k == "step") { h->commit_old_solutions(); h->set_recent_old_solution(h->get_current_solution()); }
      else if (k == "rollback") h->get_current_solution() = h->get_recent_old_solution();
      else if (k == "apply") { auto f = sub(); const double c = t.i(); f.apply([c](BV &v) { v.add(c); }); }
      else if (k == "blockwise") { auto f = sub(); const double c = t.i(); f.apply_blockwise([c](Blk &v) { v.add(c); }); }
      else if (k == "raw") { auto f = sub(); const double c = t.i(); for (auto *b : f.get_all_blocks_raw()) b->add(c); }
      else if (k == "ptr") { auto f = sub(); const double c = t.i(); for (auto b : f.get_all_blocks()) b->add(c); }
      else if (k == "resize") { auto f = sub(); const unsigned c = t.i(); f.apply([c](BV &v) { v.reinit(c); }); }
      else if (k == "ghost") { auto f = sub(); f.update_ghost_values(t.i()); }
      else if (k == "unghost") { auto f = sub(); f.zero_out_ghost_values(t.i()); }
      else if (k == "old") { const double c = t.i(); for (auto v : h->get_old_solutions()) v->add(c); }
      else if (k == "all") { const double c = t.i(); for (auto v : h->get_all_solutions()) v->add(c); }
      else if (k == "getrecent")
        {
          const BV &v = h->get_recent_old_solution();
          std::vector<const Blk *> p;
          for (unsigned b = 0; b < v.n_blocks(); ++b) p.push_back(&v.block(b));
          ret = blocks_of(p);
        }
      else if (k == "extra")
        {
          BV v;
          h->extrapolate(v, t.i());
          std::vector<const Blk *> p;
          for (unsigned b = 0; b < v.n_blocks(); ++b) p.push_back(&v.block(b));
          ret = blocks_of(p);
        }
      else if (k == "count")
        {
          const auto f = sub();
          std::vector<const Blk *> p;
          for (auto b : f.get_all_blocks()) p.push_back(b.get());
          ret = f.n_blocks_total() == p.size() && f.get_all_blocks_raw().size() == p.size() ? blocks_of(p) : "[[-999]]";
        }
      else if (k == "flat")
        {
          const auto f = sub();
          const unsigned m = f.n_blocks_total();
          BV v(m);
          for (unsigned b = 0; b < m; ++b) v.block(b).reinit(*f.get_all_blocks()[b]);
          f.flatten(v);
          std::vector<const Blk *> p;
          for (unsigned b = 0; b < m; ++b) p.push_back(&v.block(b));
          ret = blocks_of(p);
        }
      else { std::cerr << "unknown operation " << k; std::abort(); }
      const auto all = h->get_all_solutions();
      out << (s ? "," : "") << "{\"np\":" << np() << ",\"ret\":" << ret << ",\"v\":[";
      for (unsigned i = 0; i < all.size(); ++i)
        {
          std::vector<const Blk *> p;
          for (unsigned b = 0; b < all[i]->n_blocks(); ++b) p.push_back(&all[i]->block(b));
          out << (i ? "," : "") << "{\"b\":" << blocks_of(p) << ",\"g\":[";
          for (unsigned b = 0; b < p.size(); ++b) out << (b ? "," : "") << ghosts(*p[b]);
          out << "]}";
        }
      out << "]}";
    }
  out << "]}";
}
using TD = TimeIntegration::TimeIntegratorData<double>;
static std::unique_ptr<TimeIntegration::ImplicitScheme<double>> scheme(int k)
{
  if (k == 0) return nullptr;
  auto v = TimeIntegration::create_time_scheme<double>("BDF" + std::to_string(k));
  return v.template try_take<TimeIntegration::ImplicitScheme<double>>();
}
static void schemes(Tok &t)
{
  const double u = 0.01;
  const int n = t.i();
  std::vector<std::unique_ptr<TD>> x(3);
  out << "{\"obs\":[";
  for (int s = 0; s < n; ++s)
    {
      const std::string k = t.w();
      const unsigned i = t.i() - 1;
      auto store = [](const TD &a, TD &b) {
        std::stringstream f;
        { boost::archive::binary_oarchive o(f); o << a; o << 17; }
        { boost::archive::binary_iarchive o(f); int m; o >> b; o >> m; if (m != 17) std::abort(); }
      };
      if (k == "make")
        {
          const int m = t.i(), d = t.i();
          if (m == 0 && d == 0) x[i] = std::make_unique<TD>();
          else if (d == 0) x[i] = std::make_unique<TD>(scheme(m));
          else x[i] = std::make_unique<TD>(scheme(m), d * u);
        }
      else if (k == "update") x[i]->update_dt(t.i() * u);
      else if (k == "replace") x[i]->replace_dt(t.i() * u);
      else if (k == "copy") { auto y = std::make_unique<TD>(*x[t.i() - 1]); x[i] = std::move(y); }
      else if (k == "assign") *x[i] = *x[t.i() - 1];
      else if (k == "rescheme") { const unsigned j = t.i() - 1; const int m = t.i(); auto y = std::make_unique<TD>(*x[j], scheme(m)); x[i] = std::move(y); }
      else if (k == "restore")
        {
          const unsigned j = t.i() - 1; const int m = t.i();
          TD y;
          store(*x[j], y);
          y = TD(y, scheme(m));
          x[i] = std::make_unique<TD>(y);
        }
      else if (k == "copydt") x[i]->copy_all_dt(*x[t.i() - 1]);
      else if (k == "load") store(*x[t.i() - 1], *x[i]);
      else if (k == "time") x[i]->set_current_time(t.i() * u);
      else if (k == "advance") x[i]->update_current_time(t.i() * u);
      else { std::cerr << "unknown operation " << k; std::abort(); }
      out << (s ? "," : "") << "[";
      for (unsigned m = 0; m < 3; ++m)
        {
          if (!x[m]) x[m] = std::make_unique<TD>(scheme(m + 1));
          const TD &y = *x[m];
          std::vector<double> d, w;
          for (const double a : y.get_all_dt()) d.push_back(a / u);
          for (const double a : y.get_weights()) w.push_back(std::round(a * u * 100000));
          out << (m ? "," : "") << "{\"k\":" << y.get_order() << ",\"d\":" << nums(d) << ",\"w\":" << nums(w) << ",\"cur\":" << num(y.get_current_dt() / u)
              << ",\"t\":" << num(y.get_current_time() / u) << ",\"impl\":" << jb(y.is_implicit()) << ",\"alg\":" << num(y.get_algebraic_weight())
              << ",\"prim\":" << num(std::round(y.get_primary_weight() * u * 100000)) << "}";
        }
      out << "]";
    }
  out << "]}";
}
static void stages(Tok &t)
{
  auto v = TimeIntegration::create_time_scheme<double>(t.w());
  auto e = v.template try_take<TimeIntegration::ExplicitScheme>();
  out << "{\"stages\":[";
  bool first = true;
  for (const auto &s : e->get_stages()) { out << (first ? "[" : ",[") << num(12 * s.first) << "," << num(12 * s.second) << "]"; first = false; }
  out << "]}";
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  for (auto &l : read_lines(argv[argc - 1]))
    {
      Tok t(l);
      const std::string k = t.w();
      out.str("");
      alarm(60);
      try
        {
          if (k == "V") vectors(t);
          else if (k == "H") history(t);
          else if (k == "D") schemes(t);
          else if (k == "E") stages(t);
        }
      catch (const std::exception &e) { out.str(""); out << "{\"exc\":1}"; std::cerr << e.what(); }
      if (me() == 0) std::cout << "@" << out.str() << std::endl;
      MPI_Barrier(MPI_COMM_WORLD);
    }
}
