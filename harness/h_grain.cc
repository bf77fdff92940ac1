// Grains as values: sequences of operations, writing and reading archives; everything observable after each operation.
#include "common.h"
#include <deal.II/base/point.h>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/unique_ptr.hpp>
#include <pf-applications/grain_tracker/grain.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
using namespace dealii;
using namespace GrainTracker;
static long sc(const double x) { return x > 9e5 ? 99999999 : x < -9e5 ? -99999999 : std::lround(x * 100); }
static void hex(std::string &s, const double x)
{
  unsigned long long u;
  std::memcpy(&u, &x, 8);
  char b[32];
  snprintf(b, sizeof b, "%llx,", u);
  s += b;
}
static unsigned long long fnv(const std::string &s)
{
  unsigned long long h = 1469598103934665603ull;
  for (const unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
template <int dim>
void go(Tok &t)
{
  const int n = t.i(), nops = t.i();
  std::vector<Grain<dim>> g;
  std::vector<std::vector<int>> kind(n), kind_saved;
  for (int i = 0; i < n; ++i) g.emplace_back(i, 0);
  std::string archive;
  bool binary = false;
  std::ostringstream out;
  out << "{\"obs\":[";
  for (int k = 0; k < nops; ++k)
    {
      const std::string op = t.w();
      long ret = 0;
      if (op == "new")
        {
          const int i = t.i() - 1;
          const unsigned a = t.i(), b = t.i(), c = t.i();
          g[i] = b == c ? Grain<dim>(a, b) : Grain<dim>(a, b, c);
          kind[i].clear();
        }
      else if (op == "seg")
        {
          const int i = t.i() - 1, kd = t.i();
          long c3[3];
          Point<dim> c;
          for (int d = 0; d < 3; ++d) { c3[d] = t.i(); if (d < dim) c[d] = c3[d]; }
          const double r = t.i(), m = t.i(), v = t.i() / 100.;
          std::vector<long> dt(t.i());
          for (auto &x : dt) x = t.i();
          std::unique_ptr<Representation> rep;
          if (kd == 1) rep = std::make_unique<RepresentationSpherical<dim>>(c, r);
          if (kd == 2)
            {
              std::array<double, dim> radii;
              std::array<Point<dim>, dim> axes;
              for (int d = 0; d < dim; ++d) { radii[d] = dt[d]; axes[d][d] = 1; }
              if (dt[3] == 1) { axes[0][0] = .6; axes[0][1] = .8; axes[1][0] = -.8; axes[1][1] = .6; }
              if (dt[3] == 2)
                {
                  if constexpr (dim == 2) { axes[0] = Point<dim>(0, 1); axes[1] = Point<dim>(-1, 0); }
                  else { axes[0] = Point<dim>(0, 1, 0); axes[1] = Point<dim>(0, 0, 1); axes[2] = Point<dim>(1, 0, 0); }
                }
              rep = std::make_unique<RepresentationElliptical<dim>>(c, radii, axes);
            }
          if (kd == 3)
            {
              std::map<std::pair<unsigned, unsigned>, double> ds;
              for (unsigned q = 2; q + 2 < dt.size(); q += 3) ds.insert({{(unsigned)dt[q], (unsigned)dt[q + 1]}, (double)dt[q + 2]});
              rep = std::make_unique<RepresentationWavefront<dim>>(dt[0], dt[1], c, ds);
            }
          if (kd == 1 && k % 2) g[i].add_segment(c, r, m, v);
          else if (k % 3) g[i].add_segment(Segment<dim>(c, r, m, v, std::move(rep)));
          else { const Segment<dim> s(c, r, m, v, std::move(rep)); g[i].add_segment(s); }
          kind[i].push_back(kd);
        }
      else if (op == "id") { const int i = t.i() - 1; g[i].set_grain_id(t.i()); }
      else if (op == "op") { const int i = t.i() - 1; g[i].set_order_parameter_id(t.i()); }
      else if (op == "dyn") { const int i = t.i() - 1; g[i].set_dynamics(static_cast<typename Grain<dim>::Dynamics>(t.i())); }
      else if (op == "nb")
        {
          const int i = t.i() - 1, j = t.i() - 1;
          try { g[i].add_neighbor(g[j]); } catch (const std::exception &) { ret = 1; }
        }
      else if (op == "copy")
        {
          const int i = t.i() - 1, j = t.i() - 1;
          // (copied through a temporary as the tracker does when it stores grains)
          Grain<dim> tmp(g[j]);
          std::vector<Grain<dim>> w;
          for (int q = 0; q < n; ++q) if (q == i) w.push_back(tmp); else w.push_back(g[q]);
          g.swap(w);
          kind[i] = kind[j];
        }
      else if (op == "save")
        {
          binary = t.i();
          std::ostringstream s;
          if (binary) { boost::archive::binary_oarchive a(s); a << g; }
          else { boost::archive::text_oarchive a(s); a << g; }
          archive = s.str();
          kind_saved = kind;
        }
      else if (op == "load")
        {
          t.i();
          if (!archive.empty())
            {
              std::istringstream s(archive);
              std::vector<Grain<dim>> w;
              if (binary) { boost::archive::binary_iarchive a(s); a >> w; }
              else { boost::archive::text_iarchive a(s); a >> w; }
              g.swap(w);
              kind = kind_saved;
            }
        }
      else if (op == "dist") { const int i = t.i() - 1, j = t.i() - 1; ret = sc(g[i].distance(g[j])); }
      else if (op == "ovl")
        {
          const int i = t.i() - 1, j = t.i() - 1;
          const double q = t.i() / 100., f = t.i();
          ret = g[i].overlaps(g[j], q, f);
        }
      std::string ex;
      out << (k ? "," : "") << "{\"ret\":" << ret << ",\"g\":[";
      for (int i = 0; i < n; ++i)
        {
          const auto &x = g[i];
          out << (i ? "," : "") << "{\"id\":" << x.get_grain_id() << ",\"op\":" << x.get_order_parameter_id() << ",\"old\":" << x.get_old_order_parameter_id()
              << ",\"dyn\":" << (int)x.get_dynamics() << ",\"maxr\":" << sc(x.get_max_radius())
              << ",\"maxv\":" << (x.get_max_value() < -1e6 ? -99999999 : std::lround(100 * x.get_max_value()))
              << ",\"sum\":" << sc(x.get_measure()) << ",\"buf\":" << sc(x.transfer_buffer()) << ",\"ns\":" << x.n_segments() << ",\"segs\":[";
          ex += std::to_string(x.get_grain_id()) + "/" + std::to_string(x.get_order_parameter_id()) + "/" + std::to_string(x.get_old_order_parameter_id()) + "/" + std::to_string((int)x.get_dynamics());
          hex(ex, x.get_max_radius()); hex(ex, x.get_max_value()); hex(ex, x.get_measure()); hex(ex, x.transfer_buffer());
          for (unsigned s = 0; s < x.get_segments().size(); ++s)
            {
              const auto &e = x.get_segments()[s];
              std::vector<double> data;
              if (kind[i][s]) e.save(data);
              std::vector<long> c, q;
              for (int d = 0; d < dim; ++d) { c.push_back(sc(e.get_center()[d])); hex(ex, e.get_center()[d]); }
              for (const auto y : data) { q.push_back(sc(y)); hex(ex, y); }
              hex(ex, e.get_radius()); hex(ex, e.get_measure()); hex(ex, e.get_max_value());
              if (kind[i][s]) { std::ostringstream p; e.print(p); ex += p.str(); }
              out << (s ? "," : "") << "{\"c\":" << jl(c) << ",\"r\":" << sc(e.get_radius()) << ",\"m\":" << sc(e.get_measure()) << ",\"v\":" << std::lround(100 * e.get_max_value())
                  << ",\"trivial\":" << jb(e.trivial()) << ",\"data\":" << jl(q) << "}";
            }
          out << "]}";
        }
      out << "],\"pairs\":[";
      bool f = true;
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (i != j)
            {
              out << (f ? "" : ",") << "[" << i + 1 << "," << j + 1 << "," << sc(g[i].distance_lower_bound(g[j])) << "," << sc(g[i].distance_centers(g[j])) << "]";
              f = false;
              std::set<int> K(kind[i].begin(), kind[i].end());
              K.insert(kind[j].begin(), kind[j].end());
              if (K.size() == 1 && *K.begin() > 0 && !kind[i].empty() && !kind[j].empty()) { try { hex(ex, g[i].distance(g[j])); } catch (const std::exception &) { ex += "refused"; } }
            }
      char b[32];
      snprintf(b, sizeof b, "%016llx", fnv(ex));
      out << "],\"exact\":\"" << b << "\"}";
    }
  std::cout << "@" << out.str() << "]}" << std::endl;
}
int main(int, char **argv)
{
  for (auto &l : read_lines(argv[1]))
    {
      Tok t(l);
      alarm(60);
      t.i() == 2 ? go<2>(t) : go<3>(t);
    }
}
