"""C03: speccon1d_vrc against the reference Galerkin solution."""
from vh import group
from checks import speccheck

RULE = 'Random stone-column problems; soil, column and overall pressures, averages, settlement against an independent Galerkin solution of the coupled equations.'
ASSUMPTIONS = ['Loads start from zero at time zero (a step at zero included); profiles are of order one, in the units group rescaled by up to 10^12.',
               'Output times never coincide with a step at the very last point of a history.']


@group('reference solution', quick=420, thorough=7000)
def reference(c):
    speccheck.one(c, 'vrc')


@group('many terms', quick=16, thorough=300)
def many(c):
    speccheck.one(c, 'vrc', c.pick(20, 30, 40))


@group('partial input and output', quick=60, thorough=800)
def partial(c):
    speccheck.partial(c, 'vrc')


@group('units', quick=70, thorough=1200)
def units(c):
    speccheck.units(c, 'vrc')
