"""C09: the simplification loop of compute_palette."""
from clib import *
import palette
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust("ConvexHull's contract (C12 over qhull): a hull has at least four vertices and at most as many as the points it is built from",
            'core filter: an item that is rejected is not counted')
    P.assume('images whose colours span the colour space, so that qhull builds a hull',
             'locate_edge_to_collapse returns nothing or two different vertices of the hull (C10)')
    palette.prove_loop(P, 'C09')
