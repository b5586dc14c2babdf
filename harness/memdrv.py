"""Replay recorded calls of the compiled routines (numpy and the extension
only, so that it can run under sanitizers and valgrind).
usage: memdrv.py calls.pkl out.pkl ext_integrals.so epus_ext.so order-seed"""
import sys, pickle
import importlib.util
import numpy as np


def load(name, so):
    spec = importlib.util.spec_from_file_location(name, so)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


EP_IN = ('ist', 'vl', 'npp', 'wsat', 'a', 'b', 'wr', 'sl', 'logds', 'logrs', 'ccs', 'css', 'ccd', 'gs', 'assumption',
         'beta', 'pm', 'pore_shape', 'k0', 'numsr', 'npoint', 'maxsuction', 'minsuction')
EP_OUT = ('startpoint', 'endpoint', 'ss', 'st', 'ee', 'w', 'sr', 'vw')


def call(ext, ep, rec):
    if rec[0] == 'epus':
        m = ep.epus
        m.dealloc()
        d = rec[1]
        m.nsteps = len(d['vl'])
        for k in EP_IN:
            setattr(m, k, d[k])
        m.calresults()
        return [np.array(getattr(m, k)) for k in EP_OUT]
    r = getattr(ext, rec[0])(*[np.array(x) if isinstance(x, np.ndarray) else x for x in rec[1]],
                             **{k: (np.array(x) if isinstance(x, np.ndarray) else x) for k, x in rec[2].items()})
    return [np.array(x) for x in (r if isinstance(r, tuple) else (r,))]


def main():
    calls = pickle.load(open(sys.argv[1], 'rb'))
    ext, ep = load('ext_integrals', sys.argv[3]), load('epus_ext', sys.argv[4])
    sd = int(sys.argv[5])
    order = list(range(len(calls)))
    if sd:
        order = list(np.random.default_rng(sd).permutation(len(calls)))
        order = order + order[:len(order) // 3]       # some again
    out = {}
    for k in order:
        r = call(ext, ep, calls[k])
        out.setdefault(int(k), []).append(r)
    pickle.dump(out, open(sys.argv[2], 'wb'))


if __name__ == '__main__':
    main()
