"""C04: speccon1d_unsat against the reference Galerkin solution."""
from vh import group
from checks import speccheck

RULE = 'Random unsaturated problems; air and water pressures, averages, settlements against an independent Galerkin solution of the coupled equations.'
ASSUMPTIONS = ['Loads start from zero at time zero (a step at zero included); profiles are of order one, in the units group rescaled by up to 10^12.',
               'Output times never coincide with a step at the very last point of a history.',
               'Problems whose mode shapes are complex or growing (possible for strongly non-symmetric air/water coupling) are left out.']


@group('reference solution', quick=420, thorough=7000)
def reference(c):
    speccheck.one(c, 'unsat')


@group('many terms', quick=16, thorough=300)
def many(c):
    speccheck.one(c, 'unsat', c.pick(20, 30, 40))


@group('partial input and output', quick=60, thorough=800)
def partial(c):
    speccheck.partial(c, 'unsat')


@group('units', quick=70, thorough=1200)
def units(c):
    speccheck.units(c, 'unsat')
