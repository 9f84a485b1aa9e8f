"""C03: point location never crashes and always finishes."""
import c02
def prove(P): c02.prove(P, 'C03')
