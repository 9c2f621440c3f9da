"""Build the code under test from /repo's working tree, with our binding units.

Every check compiles only what it needs, into a scratch directory outside /repo,
and links everything into one Python extension module called mrobx.
"""
import os, re, subprocess, sys, sysconfig, tempfile, shutil, atexit, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('MROB_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ['src/common', 'src/geometry', 'src/FGraph', 'src/PCRegistration']

class BuildError(Exception):
    pass

def scratch():
    d = tempfile.mkdtemp(prefix='mrobx_')
    atexit.register(shutil.rmtree, d, True)
    return d

def lib_sources(d):
    """the .cpp files of a source directory that its CMakeLists.txt names"""
    base = os.path.join(REPO, 'src', d)
    try:
        txt = open(os.path.join(base, 'CMakeLists.txt')).read()
    except OSError:
        txt = ''
    txt = re.sub(r'#.*', '', txt)
    res = []
    for root, dirs, files in os.walk(base):
        dirs[:] = [x for x in dirs if x not in ('examples', 'tests', 'test')]
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(root, f), base)
            if f.endswith('.cpp') and (rel in txt or not txt):
                res.append(os.path.join(root, f))
    if not res:
        raise BuildError('no sources found in ' + base)
    return sorted(res)

LIBS = {'geometry': 'geometry', 'common': 'common', 'fgraph': 'FGraph', 'pc': 'PCRegistration'}

def pyflags():
    return ['-I' + sysconfig.get_paths(vars={})['include'] if False else '-I' + sysconfig.get_path('include')]

def build(libs, pysrc, ours, defines=(), san=False, link=()):
    """libs: keys of LIBS; pysrc: files of mrobpy; ours: files of /verif/cpp. Returns the dir with mrobx.so"""
    out = scratch()
    srcs = []
    for p in pysrc:
        srcs.append(os.path.join(REPO, 'mrobpy', p))
    for o in ours:
        srcs.append(os.path.join(VERIF, 'cpp', o))
    for l in libs:
        srcs += lib_sources(LIBS[l])
    flags = ['-std=gnu++14', '-O1', '-DNDEBUG', '-fPIC', '-w', '-fvisibility=hidden'] + ['-D' + d for d in defines]
    if san:
        # bounds of Eigen and of the standard containers are checked as well
        flags += ['-fsanitize=address,undefined', '-fno-omit-frame-pointer', '-g1', '-D_GLIBCXX_ASSERTIONS', '-include', os.path.join(VERIF, 'cpp', 'mx_assert.hpp')]
    flags += ['-I' + os.path.join(REPO, i) for i in INC] + ['-I/usr/include/eigen3'] + pyflags()
    jobs = []
    for s in srcs:
        h = hashlib.md5(s.encode()).hexdigest()[:8]
        jobs.append((s, os.path.join(out, os.path.basename(s)[:-4] + '_' + h + '.o')))

    def comp(j):
        s, o = j
        r = subprocess.run(['g++'] + flags + ['-c', s, '-o', o], capture_output=True, text=True)
        return s, r.returncode, r.stderr
    with ThreadPoolExecutor(max_workers=8) as ex:
        for s, rc, err in ex.map(comp, jobs):
            if rc:
                raise BuildError('compiling %s failed:\n%s' % (s, err[-3000:]))
    so = os.path.join(out, 'mrobx.so')
    r = subprocess.run(['g++', '-shared', '-o', so] + (['-fsanitize=address,undefined'] if san else []) + list(link) + [o for _, o in jobs],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('linking failed:\n' + r.stderr[-3000:])
    return out

def load(d):
    sys.path.insert(0, d)
    import mrobx
    return mrobx

def geometry():
    return build(['geometry'], ['SE3py.cpp'], ['main.cpp', 'mx_geo.cpp'], ['MX_GEO'])

def fgraph():
    return build(['geometry', 'common', 'fgraph', 'pc'], ['SE3py.cpp', 'FGraphPy.cpp'], ['main.cpp', 'mx_fg.cpp'], ['MX_GEO', 'MX_FG'])

def pc():
    return build(['geometry', 'common', 'fgraph', 'pc'], ['SE3py.cpp', 'PCPlanesPy.cpp', 'PCRegistrationPy.cpp'], ['main.cpp', 'mx_pc.cpp'], ['MX_GEO', 'MX_PC'])

def python():
    return build(['geometry', 'common', 'fgraph', 'pc'], ['SE3py.cpp', 'FGraphPy.cpp', 'PCPlanesPy.cpp', 'PCRegistrationPy.cpp'], ['main.cpp'], ['MX_PY'])

def common():
    return build(['common'], [], ['main.cpp', 'mx_common.cpp'], ['MX_COMMON'],
                 link=['-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv'])    # the clock the profiler reads can be the specification's

def sanitized():
    """everything, with the address and undefined-behaviour sanitizers"""
    return build(['geometry', 'common', 'fgraph', 'pc'], ['SE3py.cpp', 'FGraphPy.cpp', 'PCPlanesPy.cpp', 'PCRegistrationPy.cpp'],
                 ['main.cpp', 'mx_fg.cpp', 'mx_pc.cpp', 'mx_geo.cpp', 'mx_common.cpp'], ['MX_GEO', 'MX_FG', 'MX_PC', 'MX_COMMON', 'MX_ALL'], san=True,
                 link=['-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv'])
