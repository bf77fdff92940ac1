#!/usr/bin/env python3
"""Generate patched copies of a few deal.II 9.5.1 headers so that the parts of
hpsint written against a newer deal.II API (grain tracker driver, operators,
sintering driver ...) compile here.  Only inline forwarding functions are added;
no class layout, virtual table or non-inline function changes."""
import os, sys
SRC = '/usr/include/deal.II'

def rd(p):
    return open(os.path.join(SRC, p)).read()

def once(s, old, new):
    assert old in s, old
    return s.replace(old, new, 1)

def main(out):
    files = {}
    fwd = '\n  __attribute__((always_inline)) MPI_Comm get_mpi_communicator() const { return this->get_communicator(); }\n'
    for p in ('dofs/dof_handler.h', 'grid/tria.h'):
        files[p] = once(rd(p), '  get_communicator() const;', '  get_communicator() const;' + fwd)
    k = '  reinit(const IndexSet &local_constraints = IndexSet());'
    files['lac/affine_constraints.h'] = once(
        rd('lac/affine_constraints.h'), k,
        k + '\n  void reinit(const IndexSet &, const IndexSet &relevant) { this->reinit(relevant); }\n')
    s = rd('base/mpi.h')
    i = s.index('    compute_index_owner(const IndexSet &owned_indices,')
    j = s.index(';', i) + 1
    s = s[:j] + '''
    template <typename IS = IndexSet>
    inline std::pair<std::vector<unsigned int>, std::map<unsigned int, IS>>
    compute_index_owner_and_requesters(const IS &owned,
                                       const IS &look_up,
                                       const MPI_Comm comm)
    {
      const auto owners = compute_index_owner(owned, look_up, comm);
      std::map<unsigned int, IS> to_send;
      unsigned int k = 0;
      for (const auto i : look_up)
        {
          auto &is = to_send[owners[k++]];
          if (is.size() == 0)
            is.set_size(look_up.size());
          is.add_index(i);
        }
      return {owners, some_to_some(comm, to_send)};
    }
''' + s[j:]
    # some_to_some must be declared before use in the template
    files['base/mpi.h'] = once(s, '''
    template <typename IS = IndexSet>
    inline std::pair''', '''
    template <typename T>
    std::map<unsigned int, T>
    some_to_some(const MPI_Comm                   comm,
                 const std::map<unsigned int, T> &objects_to_send);

    template <typename IS = IndexSet>
    inline std::pair''')
    files['base/vectorization.h'] = rd('base/vectorization.h').replace('\n  sum()\n', '\n  sum() const\n')
    files['numerics/solution_transfer.h'] = '''#ifndef verif_overlay_solution_transfer_h
#define verif_overlay_solution_transfer_h
#include <deal.II/distributed/solution_transfer.h>
DEAL_II_NAMESPACE_OPEN
template <int dim, typename VectorType = Vector<double>, int spacedim = dim>
using SolutionTransfer =
  parallel::distributed::SolutionTransfer<dim, VectorType, spacedim>;
DEAL_II_NAMESPACE_CLOSE
#endif
'''
    for p, s in files.items():
        f = os.path.join(out, 'deal.II', p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if not (os.path.exists(f) and open(f).read() == s):
            open(f, 'w').write(s)

if __name__ == '__main__':
    main(sys.argv[1])
