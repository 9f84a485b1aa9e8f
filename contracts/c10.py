"""C10: the edges of a hull, which of them is collapsed to what, and the round of compute_palette around it."""
from clib import *
import palette, edges
def prove(P):
    P.trust(*STD); P.assume(*STDA)
    P.trust("good_lp's contract: a solution satisfies every constraint added", 'core sort_by_key: a rearrangement of the elements', 'hashing a vertex agrees with comparing it')
    P.assume('images whose colours span the colour space, so that qhull builds a hull',
             'facets that are not degenerate, each of three different vertices, ordered as C12 says (the corners turn around the outward normal)')
    edges.prove_edges(P)
    palette.prove_edge(P)
    palette.prove_loop(P, 'C10')
