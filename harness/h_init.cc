// Initial microstructures: P particle clouds from CSV text, C rings, Q blocks, I images (contours), V Voronoi data.
#include "common.h"
#include <deal.II/base/mpi.h>
#include <deal.II/base/function.h>
#include <deal.II/base/geometric_utilities.h>
#include <pf-applications/sintering/initial_values_circle.h>
#include <pf-applications/sintering/initial_values_cloud.h>
#include <pf-applications/sintering/initial_values_hypercube.h>
#include <pf-applications/sintering/initial_values_microstructure_imaging.h>
#include <pf-applications/sintering/initial_values_microstructure_voronoi.h>
#include <unistd.h>
#include <cmath>
#include <iomanip>
using namespace dealii;
using namespace Sintering;
static std::ostringstream out;
static long V5(const double x) { return std::isfinite(x) && std::abs(x) < 1e4 ? std::lround(x * 1e5) : -99999999; }
static long R(const double x) { return std::isfinite(x) && std::abs(x) < 2e9 ? std::lround(x) : -99999999; }
static InterfaceDirection dirn(const long d) { return to_interface_direction(d < 0 ? "Inside" : d > 0 ? "Outside" : "Middle"); }

template <int dim>
static std::string comps(const InitialValues<dim> &iv, const Point<dim> &p)
{
  std::vector<long> v;
  for (unsigned c = 0; c < iv.n_components(); ++c)
    {
      iv.set_component(c);
      v.push_back(V5(iv.value(p, 0)));
    }
  return jl(v);
}
template <int dim>
static void common(const InitialValues<dim> &iv, const double S)
{
  const auto bb = iv.get_domain_boundaries();
  std::vector<long> lo, hi;
  for (int d = 0; d < dim; ++d) { lo.push_back(R(bb.first[d] / S)); hi.push_back(R(bb.second[d] / S)); }
  out << "\"np\":" << iv.n_particles() << ",\"nops\":" << iv.n_order_parameters() << ",\"rmax\":" << R(iv.get_r_max() / S)
      << ",\"lo\":" << jl(lo) << ",\"hi\":" << jl(hi);
}
static void print_ops(const std::map<unsigned, std::vector<unsigned>> &m)
{
  out << ",\"ops\":[";
  unsigned k = 0;
  for (auto &[op, g] : m)
    {
      // (order parameters have to be numbered from zero)
      out << (k ? "," : "") << (op == k ? jl(g) : std::string("[999]"));
      ++k;
    }
  out << "]";
}
template <int dim>
static void cloud(Tok &t)
{
  const double S = 1. / t.i();
  const long u = t.i(), mn = t.i();
  const double ib = t.i() / 2., rb = t.i() / 2.;
  const long dir = t.i(), off = t.i(), vd = t.i(), acc = t.i(), style = t.i(), n = t.i();
  std::ostringstream csv;
  csv << "x,y,z,r" << (style == 2 ? ",extra" : "") << "\n" << std::setprecision(17);
  for (long i = 0; i < n; ++i)
    {
      long c[3], r;
      for (auto &x : c) x = t.i();
      r = t.i();
      for (auto x : c) csv << (style == 1 ? " " : "") << x * S << ",";
      csv << r * S << (style == 2 ? ",7" : "");
      if (style != 3 || i + 1 < n) csv << (style == 4 ? "\r\n" : "\n");
    }
  std::istringstream in(csv.str());
  const auto parts = read_particles<dim>(in);
  const InitialValuesCloud<dim> iv(parts, 4 * u * S, mn, ib, rb, dirn(dir), off, vd, acc);
  out << "{\"obs\":{";
  common(iv, S);
  print_ops(iv.get_order_parameter_to_grains());
  out << ",\"contacts\":" << iv.n_contacts() << ",\"v\":[";
  const long m = t.i();
  for (long i = 0; i < m; ++i)
    {
      Point<dim> p;
      for (int d = 0; d < 3; ++d) { const long x = t.i(); if (d < dim) p[d] = x * S; }
      out << (i ? "," : "") << comps<dim>(iv, p);
    }
  out << "]}}";
}
template <typename B>
struct Open : B
{
  using B::B;
  using B::centers;
  using B::order_parameter_to_grains;
};
template <int dim, typename T>
static void array(const T &iv)
{
  out << "{\"obs\":{";
  common(iv, 1e-3);
  print_ops(iv.order_parameter_to_grains);
  out << ",\"centers\":[";
  bool f = true;
  for (auto &c : iv.centers)
    {
      std::vector<long> x(3, 0);
      for (int d = 0; d < dim; ++d) x[d] = R(c[d] * 1e3);
      out << (f ? "" : ",") << jl(x);
      f = false;
    }
  out << "],\"v\":[";
  f = true;
  for (auto &c : iv.centers) { out << (f ? "" : ",") << comps<dim>(iv, c); f = false; }
  out << "]}}";
}
template <int dim>
static void ring(Tok &t)
{
  const double r = t.i() / 1e3, w = t.i() / 1e3;
  const long n = t.i(), mn = t.i(), dir = t.i(), off = t.i(), vd = t.i(), acc = t.i();
  array<dim>(Open<InitialValuesCircle<dim>>(r, w, n, mn, dirn(dir), off, vd, acc));
}
template <int dim>
static void cube(Tok &t)
{
  const double r = t.i() / 1e3, w = t.i() / 1e3;
  std::array<unsigned, dim> n;
  for (auto &x : n) x = t.i();
  const long k = t.i(), dir = t.i(), off = t.i(), vd = t.i(), acc = t.i();
  array<dim>(Open<InitialValuesHypercube<dim>>(r, w, n, k, dirn(dir), off, vd, acc));
}
template <typename B>
struct OpenM : B
{
  using B::B;
  using B::order_parameter_to_grains;
};
template <typename T>
static void micro(Tok &t, const T &iv, const double S)
{
  out << "{\"obs\":{";
  common(iv, S);
  print_ops(iv.order_parameter_to_grains);
  out << ",\"v\":[";
  const long m = t.i();
  for (long i = 0; i < m; ++i)
    {
      Point<2> p;
      for (int d = 0; d < 2; ++d) p[d] = t.i() * S;
      out << (i ? "," : "") << comps<2>(iv, p);
    }
  out << "]}}";
}
static void image(Tok &t)
{
  const double S = 1. / t.i();
  const long w = t.i(), dir = t.i(), off = t.i(), vd = t.i(), acc = t.i(), n = t.i();
  std::ostringstream s;
  s << std::setprecision(17) << n << "\n";
  for (long i = 0; i < n; ++i) s << (i ? "," : "") << t.i();
  s << "\n";
  for (long i = 0; i < n; ++i)
    {
      const long m = t.i();
      for (long k = 0; k < 2 * m; ++k) s << (k ? "," : "") << t.i() * S;
      s << "\n";
    }
  std::istringstream in(s.str());
  micro(t, OpenM<InitialValuesMicrostructureImaging>(in, w * S, dirn(dir), off, vd, acc), S);
}
static void voronoi(Tok &t)
{
  const double S = 1. / t.i();
  const long w = t.i(), dir = t.i(), off = t.i(), vd = t.i(), acc = t.i();
  const long np = t.i(), nmax = t.i(), ns = t.i();
  std::ostringstream s;
  s << std::setprecision(17) << np << " " << nmax << " " << ns << "\n";
  for (long i = 0; i < np; ++i) { s << t.i(); for (int d = 0; d < 2; ++d) s << " " << t.i() * S; s << "\n"; }
  for (long i = 0; i < ns; ++i) { for (long k = 0; k < nmax + 2; ++k) s << t.i() << " "; s << "\n"; }
  std::istringstream in(s.str());
  micro(t, OpenM<InitialValuesMicrostructureVoronoi>(in, w * S, dirn(dir), off, vd, acc), S);
}
int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  for (auto &l : read_lines(argv[argc - 1]))
    {
      Tok t(l);
      out.str("");
      alarm(60);
      const std::string k = t.w();
      try
        {
          if (k == "P2") cloud<2>(t);
          if (k == "P3") cloud<3>(t);
          if (k == "C2") ring<2>(t);
          if (k == "C3") ring<3>(t);
          if (k == "Q1") cube<1>(t);
          if (k == "Q2") cube<2>(t);
          if (k == "Q3") cube<3>(t);
          if (k == "I") image(t);
          if (k == "V") voronoi(t);
        }
      catch (const std::exception &e) { out.str("{\"exc\":1}"); out.seekp(0, std::ios::end); std::cerr << e.what(); }
      std::cout << "@" << out.str() << std::endl;
    }
}
