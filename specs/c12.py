"""C12: the files of built objects"""
from thm import registry
import objects
T, theorem = registry()
ASSUMPTIONS = []
OWN, INLINE, _, _ = objects.names()
for n in OWN:
    theorem(f'{n}: every file of the object comes back, and exactly these are listed', top=True, native=False)(
        objects.own_object(n, objects.CASES[1:2] + objects.CASES[4:5], say=False))
for n in INLINE:
    theorem(f'{n}: every module of the object comes back, and exactly these are listed', top=True, native=False)(objects.inline_object(n, objects.CASES[:1], say=False))
import roots
for k in roots.KINDS:
    theorem(f'{k}: every file of the root object comes back and the list of versions names exactly the files written', top=True, native=False,
            bounded='files of the root object: all, none, all but one, one alone')(roots.root_object(k, roots.Plain()))
