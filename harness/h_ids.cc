#include "common.h"
#include <deal.II/base/point.h>
#include <pf-applications/grain_tracker/tracking.h>
using namespace dealii;
using namespace GrainTracker;

template <int dim>
std::map<unsigned int, Grain<dim>> rd(Tok &t)
{
  std::map<unsigned int, Grain<dim>> m;
  const long n = t.i();
  for (long k = 0; k < n; ++k)
    {
      const long id = t.i(), op = t.i(), ns = t.i();
      m.try_emplace(id, id, op);
      for (long j = 0; j < ns; ++j)
        {
          Point<dim> p;
          for (int d = 0; d < dim; ++d) p[d] = t.i();
          const double r = t.i();
          m.at(id).add_segment(p, r, r * r, 1.0);
        }
    }
  return m;
}
template <int dim>
void go(Tok &t)
{
  const long nops = t.i();
  const long log = t.i();
  auto o = rd<dim>(t);
  auto n = rd<dim>(t);
  std::ostringstream ss;
  const auto m = log ? transfer_grain_ids(n, o, nops, ss) : transfer_grain_ids(n, o, nops);
  std::cout << "@{\"m\":[";
  bool f = true;
  for (auto [a, b] : m)
    {
      std::cout << (f ? "" : ",") << "[" << a << "," << (b == numbers::invalid_unsigned_int ? -1L : (long)b) << "]";
      f = false;
    }
  std::cout << "]}" << std::endl;
}
int main(int, char **argv)
{
  for (auto &l : read_lines(argv[1]))
    {
      Tok t(l);
      const long dim = t.i();
      dim == 2 ? go<2>(t) : go<3>(t);
    }
}
