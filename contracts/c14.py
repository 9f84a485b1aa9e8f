"""C14: lifted points are measured against simplices as qhull does."""
import search, c13
from clib import *
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.assume('triangulation invariant (at least one simplex; vertex and neighbour entries are valid; C13)',
             'dimensions 3 and 5 are the ones the library instantiates; the same contracts are checked in both')
    for N in (3, 5):
        for u in ('u_lift', 'u_plane'): attempt(P, f'{u[2:]} ({N})', 'delaunay.rs', lambda: getattr(search, u)(P, N, 'C14'))
        attempt(P, f'from_qhull_raw ({N})', 'delaunay.rs', lambda: c13.scaling(P, N))
    P.trust("qhull's qh_scalelast under the options used: the added coordinate x becomes (x - last_low) * last_newhigh / (last_high - last_low), last_low < last_high, and a simplex's hyperplane passes through its lifted vertices")
