"""C02: point location returns a containing simplex with its own coordinates."""
import search
from clib import *
UNITS = ('u_transform', 'u_solve', 'u_degenerate', 'u_meaning', 'u_settings', 'u_new', 'u_coords', 'u_find', 'u_locate', 'u_directed', 'u_bruteforce')
def prove(P, want='C02'):
    P.trust(*STD); P.assume(*STDA)
    P.assume('triangulation invariant (at least one simplex; vertex and neighbour entries are valid; C13)',
             'the tolerance is a number, not negative (set_eps stores what it is given)',
             'dimensions 3 and 5 are the ones the library instantiates; the same contracts are checked in both')
    for N in (3, 5):
        for u in UNITS: attempt(P, f'{u[2:]} ({N})', 'delaunay.rs', lambda: getattr(search, u)(P, N, want))
