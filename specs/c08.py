"""C08: identity of objects"""
from thm import registry
import objects
T, theorem = registry()
ASSUMPTIONS = []
OWN, INLINE, _, _ = objects.names()
for n in OWN:
    theorem(f'{n}: identifier, name, comment and the whole header come back', top=True, native=False)(objects.own_object(n, fixed=False))
for n in INLINE:
    theorem(f'{n}: identifier, name, comment and the whole header come back', top=True, native=False)(objects.inline_object(n, objects.CASES[:3]))
