"""Build the Fortran extensions from the repository's current sources, outside
the repository, plain or instrumented, and make geotecha import those builds."""
import os, sys, subprocess, hashlib, sysconfig, shutil, fcntl, importlib.util
import numpy as np
from vh import REPO, VERIF

SRC = {'ext_integrals': 'geotecha/speccon/ext_integrals.f95',
       'epus_ext': 'geotecha/constitutive_models/epus_ext.f95'}
PKG = {'ext_integrals': 'geotecha.speccon', 'epus_ext': 'geotecha.constitutive_models'}
KIND = {'plain': ['-O2'],
        'bounds': ['-O0', '-g', '-fcheck=bounds,mem,pointer,recursion,do', '-fbacktrace', '-ffpe-summary=none'],
        'asan': ['-O0', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                 '-fno-omit-frame-pointer'],
        'valgrind': ['-O1', '-g']}


class BuildError(Exception):
    pass


def build(name, kind='plain'):
    src = os.path.join(REPO, SRC[name])
    data = open(src, 'rb').read()
    flags = KIND[kind]
    tag = hashlib.sha256(data + repr((flags, sys.version, np.__version__, 3)).encode()).hexdigest()[:20]
    root = os.path.join(VERIF, 'build')
    os.makedirs(root, exist_ok=True)
    out = os.path.join(root, '%s-%s-%s' % (name, kind, tag))
    so = os.path.join(out, name + sysconfig.get_config_var('EXT_SUFFIX'))
    if os.path.exists(os.path.join(out, 'done')):
        return so
    with open(os.path.join(root, '.lock-' + name + kind), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'done')):
            return so
        for d in os.listdir(root):  # drop stale builds of the same thing
            if d.startswith('%s-%s-' % (name, kind)):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, name + '.f95'), 'wb') as f:
            f.write(data)
        import numpy.f2py
        f2 = os.path.join(os.path.dirname(numpy.f2py.__file__), 'src')
        inc = ['-I' + np.get_include(), '-I' + f2, '-I' + sysconfig.get_paths()['include']]

        def run(cmd):
            p = subprocess.run(cmd, cwd=out, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-3000:])
        run([sys.executable, '-m', 'numpy.f2py', '--lower', '-m', name, name + '.f95'])
        run(['gfortran', '-fPIC'] + flags + ['-c', name + '.f95', '-o', 'f.o'])
        objs = ['f.o']
        for w in sorted(os.listdir(out)):
            if 'f2pywrappers' in w and w.endswith(('.f', '.f90')):
                o = w + '.o'
                run(['gfortran', '-fPIC', '-O1', '-c', w, '-o', o])
                objs.append(o)
        cfl = ['-g', '-O1', '-w', '-fPIC']
        run(['gcc'] + cfl + inc + ['-c', name + 'module.c', '-o', 'm.o'])
        run(['gcc'] + cfl + inc + ['-c', os.path.join(f2, 'fortranobject.c'), '-o', 'fo.o'])
        san = [x for x in flags if x.startswith('-fsanitize')]
        run(['gfortran', '-shared'] + san + ['-o', os.path.basename(so)] + objs + ['m.o', 'fo.o'])
        open(os.path.join(out, 'done'), 'w').close()
    return so


def inject(kind='plain', names=('ext_integrals', 'epus_ext')):
    """Make ``geotecha...<ext>`` be our own build of the current sources."""
    import importlib
    for name in names:
        so = build(name, kind)
        full = PKG[name] + '.' + name
        if full in sys.modules:
            if getattr(sys.modules[full], '__file__', None) == so:
                continue
            raise RuntimeError(full + ' already imported')
        spec = importlib.util.spec_from_file_location(name, so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules[full] = mod
        pk = importlib.import_module(PKG[name])
        setattr(pk, name, mod)


if __name__ == '__main__':
    for n in SRC:
        for k in (sys.argv[1:] or ['plain']):
            print(build(n, k))
