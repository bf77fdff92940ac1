#!/usr/bin/env python3
"""Create a planted change.  mkseed.py ID PROP NP < spec, where spec is
   a JSON-free text:  sections '### file PATH', '<<<', old, '===', new, '>>>',
   '### needs', text, '### breaks', text, '### demo', C++ source."""
import sys, os, json, subprocess, shutil, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# Builds demo.cc against the sources in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
. "$D/env.sh"
cd "$T"
for s in @SRCS@; do
  g++ $FLAGS -c "$s" -o "$T/$(basename "$s").o" & pids="$pids $!"
done
for p in $pids; do wait $p || { echo "does not compile"; exit 3; }; done
g++ "$T"/*.o -o "$T/demo" $LIBS || exit 3
timeout 120 @RUN@ "$T/demo"
'''
ENV = r'''python3 "$D/overlay.py" "$T/ov" || exit 3
mkdir -p "$T/gen/pf-applications/base"
printf '#define PF_APPLICATIONS_GIT_BRANCH "x"\n#define PF_APPLICATIONS_GIT_REVISION "x"\n#define PF_APPLICATIONS_GIT_SHORTREV "x"\n' > "$T/gen/pf-applications/base/revision.h"
U=/usr/lib/x86_64-linux-gnu; I=/usr/include
FLAGS="-DNDEBUG @DEFS@ -I$R/applications/sintering/include -I$R/applications/structural/include -I$R/include -I$R/tests/include -I$T/gen -isystem $T/ov"
for i in $U/openmpi/include $U/openmpi/include/openmpi $I/petsc $I/trilinos $I/hdf5/openmpi $I/scotch $I/suitesparse $I/opencascade $I/slepc /opt/vp/shim/include; do FLAGS="$FLAGS -isystem $i"; done
FLAGS="$FLAGS -w -std=gnu++20 -g0 -O1"
LIBS="-Wl,--copy-dt-needed-entries -Wl,-rpath,$U/hdf5/openmpi:$U/openmpi/lib -ldeal.ii -ltbb -lmpi_cxx -lmpi -lboost_iostreams -lboost_serialization -ldl -lz -lm -lpthread"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_plm_rsh_agent=false OMPI_MCA_oob_tcp_if_include=lo OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1
export OMP_NUM_THREADS=1 DEAL_II_NUM_THREADS=1 LC_ALL=C.UTF-8
'''
HDR = '''#define CHECK(c) do { if (!(c)) { std::cout << "FAILED: " #c << " (line " << __LINE__ << ")" << std::endl; std::cout.flush(); _exit(1); } } while (0)
#include <unistd.h>
#include <iostream>
#include <cmath>
'''

TRK = r'''// A small world for the grain tracker: a uniform mesh of unit cells, fields given per node.
#pragma once
#include <deal.II/base/conditional_ostream.h>
#include <deal.II/base/mpi.h>
#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/lac/affine_constraints.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <functional>
using namespace dealii;
using VT = LinearAlgebra::distributed::DynamicBlockVector<double>;
template <int dim>
struct World
{
  parallel::distributed::Triangulation<dim> tria;
  FE_Q<dim> fe;
  DoFHandler<dim> dh;
  std::shared_ptr<Utilities::MPI::Partitioner> part;
  std::map<types::global_dof_index, Point<dim>> sp;
  World(const std::vector<unsigned int> rep, const bool periodic = false, std::function<bool(const Point<dim> &)> refine = {})
    : tria(MPI_COMM_WORLD), fe(1), dh(tria)
  {
    Point<dim> p;
    for (int d = 0; d < dim; ++d) p[d] = rep[d];
    GridGenerator::subdivided_hyper_rectangle(tria, rep, Point<dim>(), p, true);
    if (periodic)
      {
        std::vector<GridTools::PeriodicFacePair<typename parallel::distributed::Triangulation<dim>::cell_iterator>> v;
        for (int d = 0; d < dim; ++d) GridTools::collect_periodic_faces(tria, 2 * d, 2 * d + 1, d, v);
        tria.add_periodicity(v);
      }
    if (refine)
      {
        for (auto &c : tria.active_cell_iterators()) if (c->is_locally_owned() && refine(c->center())) c->set_refine_flag();
        tria.execute_coarsening_and_refinement();
      }
    dh.distribute_dofs(fe);
    part = std::make_shared<Utilities::MPI::Partitioner>(dh.locally_owned_dofs(), DoFTools::extract_locally_relevant_dofs(dh), MPI_COMM_WORLD);
    for (auto &c : dh.active_cell_iterators())
      if (!c->is_artificial())
        {
          std::vector<types::global_dof_index> i(fe.n_dofs_per_cell());
          c->get_dof_indices(i);
          for (const unsigned int v : c->vertex_indices()) sp[i[v]] = c->vertex(v);
        }
  }
  VT field(const unsigned int n, std::function<double(unsigned int, const Point<dim> &)> f)
  {
    VT v(n);
    for (unsigned int b = 0; b < n; ++b)
      {
        v.block(b).reinit(part);
        for (auto i : dh.locally_owned_dofs()) v.block(b)(i) = f(b, sp.at(i));
      }
    v.collect_sizes();
    v.update_ghost_values();
    return v;
  }
  double at(VT &v, const unsigned int b, const Point<dim> p)
  {
    double r = -1e9;
    for (auto i : dh.locally_owned_dofs()) if (sp.at(i).distance(p) < 1e-10) r = v.block(b)(i);
    return Utilities::MPI::max(r, MPI_COMM_WORLD);
  }
};
template <int dim>
double disc(const Point<dim> &p, const Point<dim> &c, const double r, const double peak = 1.)
{
  return p.distance(c) <= r + 1e-10 ? peak : 0.;
}
'''

def main():
    id_, prop, np_ = sys.argv[1:4]
    srcs = sys.argv[4].split() if len(sys.argv) > 4 else []
    defs = sys.argv[5] if len(sys.argv) > 5 else ''
    t = sys.stdin.read()
    secs = re.split(r'^### ', t, flags=re.M)[1:]
    d = os.path.join(VERIF, 'seeded', id_)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    W = '/tmp/mkseed-%d' % os.getpid()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', W, 'HEAD'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    meta = {'property': prop}
    try:
        for s in secs:
            head, body = s.split('\n', 1)
            w = head.split()
            if w[0] == 'file':
                p = os.path.join(W, w[1]); x = open(p).read()
                for old, new in re.findall(r'^<<<\n(.*?)^===\n(.*?)^>>>$', body, flags=re.M | re.S):
                    assert x.count(old) == 1, (w[1], x.count(old), old)
                    x = x.replace(old, new)
                open(p, 'w').write(x)
            elif w[0] == 'needs': meta['needs'] = ' '.join(body.split())
            elif w[0] == 'breaks': meta['what_it_breaks'] = ' '.join(body.split())
            elif w[0] == 'demo':
                if 'drv.h' in body: shutil.copy(os.path.join(VERIF, 'lib', 'demo', 'drv.h'), d)
                if 'trk.h' in body: open(os.path.join(d, 'trk.h'), 'w').write(TRK)
                open(os.path.join(d, 'demo.cc'), 'w').write(HDR + body)
        diff = subprocess.check_output(['git', '-C', W, 'diff'], text=True)
        assert diff.strip()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', W])
    json.dump(meta, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    shutil.copy(os.path.join(VERIF, 'lib', 'overlay.py'), d)
    open(os.path.join(d, 'env.sh'), 'w').write((ENV.replace('@DEFS@', defs.replace('-O0', '')).replace('-O1', '-O0') if '-O0' in defs else ENV.replace('@DEFS@', defs)))
    L = ' '.join(['"$D/demo.cc"'] + ['"$R/%s"' % s for s in (srcs or ['src/base/output.cc', 'src/base/timer.cc', 'src/grid/grid_tools.cc', 'src/grain_tracker/distributed_stitching.cc'])])
    np_ = int(np_)
    run = '' if np_ <= 1 else 'mpirun -np %d' % np_
    f = os.path.join(d, 'demo.sh'); open(f, 'w').write(SH.replace('@SRCS@', L).replace('@RUN@', run)); os.chmod(f, 0o755)
main()
