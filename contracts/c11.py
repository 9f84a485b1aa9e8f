"""C11: the error a hull is judged by, and how the simplification loop uses it."""
from clib import *
import palette
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust('counting: the numbers of occurrences of the distinct colours add up to the number of pixels',
            'the root mean square of nearest distances is what the square root of the weighted mean of smallest squared face distances is (a point outside is nearest to a face)')
    P.assume('images of fewer than 2^31 pixels whose colours span the colour space, so that qhull builds a hull',
             'ConvexHull (C12), Delaunay (C13), SimplexSearcher::find_simplex (C02, C03) and triangle_distance_sqr (C05) satisfy their own contracts',
             'locate_edge_to_collapse returns nothing or two different vertices of the hull (C10)')
    palette.prove_error(P)
    palette.prove_loop(P, 'C11')
