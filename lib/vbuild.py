"""
Builds the C++ libraries and the Cython modules of /repo's *current working tree* into /verif/.build/<flavor> and
assembles an importable `mlrl` package there.  Nothing of /repo's own build output is used and nothing is written to /repo.

Flavors
  plain   -O1, libstdc++ assertions, MLRL_VERIF_HOOKS on (event trace), real libgomp
  asan    AddressSanitizer + UndefinedBehaviorSanitizer, hooks on
  tsan    ThreadSanitizer, OpenMP calls served by harness/omp_shim.cpp (pthreads, instrumented)
  sched   like plain, but OpenMP served by omp_shim (seeded schedule perturbation)
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
BUILD_ROOT = Path(os.environ.get('VERIF_BUILD_ROOT', VERIF / '.build'))
VENV = Path('/opt/vp/venv')
PY = VENV / 'bin' / 'python'
SUBS = ('common', 'boosting', 'seco')
CHUNKS = {'common': 6, 'boosting': 10, 'seco': 3}

OPT = {
    'plain': '-O1 -D_GLIBCXX_ASSERTIONS=1',
    'sched': '-O1 -D_GLIBCXX_ASSERTIONS=1',
    'asan': '-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS=1 -fsanitize=address,undefined '
            '-fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined',
    'tsan': '-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread',
}
LINK = {
    'plain': '-fopenmp',
    'sched': '-L{bdir} -lvompshim',
    'asan': '-fopenmp -fsanitize=address,undefined -fno-sanitize=vptr,alignment',
    'tsan': '-L{bdir} -lvompshim -fsanitize=thread',
}


class BuildError(Exception):
    pass


def _write(path, text):
    path.parent.mkdir(parents=True, exist_ok=True)
    if path.exists() and path.read_text() == text:
        return
    path.write_text(text)


def _py_query():
    out = subprocess.run([str(PY), '-c',
                          'import sysconfig,numpy;print(sysconfig.get_path("include"));print(numpy.get_include());'
                          'print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                         check=True, capture_output=True, text=True, cwd='/').stdout.split('\n')
    return out[0], out[1], out[2]


def _sources(sub):
    """The source files listed in the sub-project's meson.build (falls back to a glob)."""
    base = REPO / 'cpp' / 'subprojects' / sub
    text = (base / 'meson.build').read_text()
    m = re.search(r'source_files\s*=\s*\[(.*?)\]', text, re.S)
    files = re.findall(r"'([^']+\.cpp)'", m.group(1)) if m else []
    files = [base / f for f in files]
    if not files or not all(f.exists() for f in files):
        files = sorted((base / 'src').glob('**/*.cpp'))
    return sorted(files)


def _config(sub, bdir):
    src = REPO / 'cpp' / 'subprojects' / sub / 'include' / 'mlrl' / sub / 'config.hpp.in'
    text = src.read_text()
    rep = {f'mlrl{sub}_library_name': f'libmlrl{sub}', f'mlrl{sub}_library_version': '1.0.0',
           f'mlrl{sub}_target_architecture': 'x86_64-linux'}
    for k, v in rep.items():
        text = text.replace(f'@{k}@', v)
    text = re.sub(r'#mesondefine (\w+)', lambda m: f'#define {m.group(1)} 1', text)
    text = re.sub(r'@\w+@', '1', text)
    _write(bdir / 'cfg' / sub / 'config.hpp', text)


def _ninja(flavor, bdir, unity):
    pyinc, npinc, ext = _py_query()
    P = REPO / 'python' / 'subprojects'
    lines = ['ninja_required_version = 1.5',
             f'cxxflags = -std=c++20 -fPIC -fopenmp -w {OPT[flavor]} -DMLRL_VERIF_HOOKS=1',
             f'link = {LINK[flavor].format(bdir=bdir)}',
             'rule cxx', '  command = g++ $cxxflags $inc -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d',
             '  deps = gcc',
             'rule cyx',
             '  command = ' + str(VENV / 'bin' / 'cython') + ' -3 --cplus $inc --depfile $in -o $out',
             '  depfile = $out.dep', '  deps = gcc',
             'rule cyo',
             f'  command = g++ -O0 -w -std=c++20 -fPIC -DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION -I{pyinc} -I{npinc} '
             '$inc -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
             'rule so', '  command = g++ -shared $in -o $out $libs', '']
    targets = []
    common_inc = f'-I{REPO}/cpp/subprojects/common/include'
    shim = []
    if flavor in ('tsan', 'sched'):
        src = VERIF / 'harness' / 'omp_shim.cpp'
        lines += [f'build obj/omp_shim.o: cxx {src}', '  inc =',
                  f'build libvompshim.so: so obj/omp_shim.o',
                  f'  libs = -lpthread {"-fsanitize=thread" if flavor == "tsan" else ""}']
        shim = ['libvompshim.so']
    lib_of = {}
    for sub in SUBS:
        _config(sub, bdir)
        inc = f'-I{bdir}/cfg/{sub} -I{REPO}/cpp/subprojects/{sub}/include {common_inc}'
        files = _sources(sub)
        objs = []
        if unity:
            n = CHUNKS[sub]
            for i in range(n):
                u = bdir / 'unity' / f'{sub}_{i}.cpp'
                _write(u, ''.join(f'#include "{f}"\n' for f in files[i::n]))
                o = f'obj/u_{sub}_{i}.o'
                lines += [f'build {o}: cxx {u}', f'  inc = {inc}']
                objs.append(o)
        else:
            for f in files:
                o = f'obj/s_{sub}_' + str(f.relative_to(REPO)).replace('/', '_') + '.o'
                lines += [f'build {o}: cxx {f}', f'  inc = {inc}']
                objs.append(o)
        if sub == 'common':
            h = VERIF / 'harness' / 'hooks.cpp'
            lines += [f'build obj/hooks.o: cxx {h}', f'  inc = {inc}']
            objs.append('obj/hooks.o')
        so = f'pkg/mlrl/{sub}/cython/libmlrl{sub}.so'
        implicit = list(shim)
        libs = f'-Wl,-soname,libmlrl{sub}.so $link -Wl,-rpath,{bdir} -lOpenCL'
        if sub != 'common':
            implicit.append('pkg/mlrl/common/cython/libmlrlcommon.so')
            libs += f' -L{bdir}/pkg/mlrl/common/cython -lmlrlcommon -Wl,-rpath,{bdir}/pkg/mlrl/common/cython'
        lines += [f'build {so}: so {" ".join(objs)}' + (f' | {" ".join(implicit)}' if implicit else ''),
                  f'  libs = {libs}']
        targets.append(so)
        lib_of[sub] = so
        # Cython modules
        cinc = f'-I {P}/common' + (f' -I {P}/{sub}' if sub != 'common' else '')
        xinc = f'-I{bdir}/cfg/{sub} -I{REPO}/cpp/subprojects/{sub}/include {common_inc}'
        for pyx in sorted((P / sub / 'mlrl' / sub / 'cython').glob('*.pyx')):
            m = pyx.stem
            c = f'cy/{sub}_{m}.cpp'
            o = f'cy/{sub}_{m}.o'
            s = f'pkg/mlrl/{sub}/cython/{m}{ext}'
            d = f'{bdir}/pkg/mlrl'
            libs = f'-L{d}/{sub}/cython -lmlrl{sub} -Wl,-rpath,{d}/{sub}/cython'
            impl = [so]
            if sub != 'common':
                libs += f' -L{d}/common/cython -lmlrlcommon -Wl,-rpath,{d}/common/cython'
                impl.append(lib_of['common'])
            if flavor == 'tsan':
                libs += ' -Wl,--allow-shlib-undefined'
            lines += [f'build {c}: cyx {pyx}', f'  inc = {cinc}', f'build {o}: cyo {c}', f'  inc = {xinc}',
                      f'build {s}: so {o} | {" ".join(impl)}', f'  libs = {libs} -Wl,--unresolved-symbols=ignore-all']
            targets.append(s)
    lines.append('default ' + ' '.join(targets))
    _write(bdir / 'build.ninja', '\n'.join(lines) + '\n')
    return targets


def _copy_py(bdir):
    P = REPO / 'python' / 'subprojects'
    keep = set()
    root = bdir / 'pkg' / 'mlrl'
    root.mkdir(parents=True, exist_ok=True)
    for sub in SUBS + ('testbed', ):
        base = P / sub / 'mlrl' / sub
        for f in base.glob('**/*'):
            if f.is_dir() or '__pycache__' in f.parts or f.suffix not in ('.py', ):
                continue
            dst = root / sub / f.relative_to(base)
            _write(dst, f.read_text())
            keep.add(dst)
    init = P / 'common' / 'mlrl' / '__init__.py'
    _write(root / '__init__.py', init.read_text() if init.exists() else '')
    keep.add(root / '__init__.py')
    for f in root.glob('**/*.py'):
        if f not in keep:
            f.unlink()


def build(flavor='plain', verbose=False):
    """Builds a flavor and returns the directory that has to be put on PYTHONPATH."""
    t0 = time.time()
    bdir = BUILD_ROOT / flavor
    bdir.mkdir(parents=True, exist_ok=True)
    _copy_py(bdir)
    ninja = str(VENV / 'bin' / 'ninja')
    env = dict(os.environ, PATH=f'{VENV}/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    env.pop('LD_PRELOAD', None)
    last = None
    for unity in (True, False):
        targets = _ninja(flavor, bdir, unity)
        # drop modules that are no longer part of the tree
        wanted = {str(bdir / t) for t in targets}
        for so in (bdir / 'pkg').glob('**/*.so'):
            if str(so) not in wanted:
                so.unlink()
        r = subprocess.run([ninja, '-C', str(bdir), '-j', str(os.cpu_count() or 4)], env=env, capture_output=True,
                           text=True)
        last = r
        if r.returncode == 0:
            break
    if last.returncode != 0:
        out = last.stdout + last.stderr
        errs = [ln[:300] for ln in out.splitlines() if re.search(r'error:|^FAILED|Error', ln)]
        raise BuildError('\n'.join(errs[:20]) + '\n' + out[-1500:])
    if verbose:
        print(f'build[{flavor}]: {time.time() - t0:.1f}s', file=sys.stderr)
    return bdir / 'pkg'


if __name__ == '__main__':
    for fl in sys.argv[1:] or ['plain']:
        print(build(fl, True))
