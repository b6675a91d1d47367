"""Front end: compile /repo's current sources to LLVM IR, link, export, load."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ARMAS_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'


HEADERS = ('dlpack.h', 'spdefs.h', 'dtype.h', 'matrix.h', 'sparse.h')


class BuildError(Exception):
    pass


def exporter():
    """path of the IR exporter, building it when setup has not"""
    out = os.path.join(VERIF, 'build', 'irexport')
    src = os.path.join(VERIF, 'tool', 'irexport.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    fl = subprocess.run([LLVM + '/llvm-config', '--cxxflags'], capture_output=True, text=True, check=True).stdout
    fl = fl.replace('-fno-exceptions', '').split()
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['clang++', '-O1'] + fl + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError('irexport: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def sources():
    t = open(os.path.join(REPO, 'src/Makefile.am')).read().replace('\\\n', ' ')
    out = []
    for m in re.finditer(r'^(COMMON|BLAS|EBLAS|ACCEL|LAPACK|SPARSE|COMPAT)\s*\+?=(.*)$', t, re.M):
        for s in m.group(2).split():
            if s.endswith('.c') and s not in out:
                out.append(s)
    return out


DEFS = ['-DHAVE_CONFIG_H', '-I' + os.path.join(VERIF, 'tool'), '-march=x86-64-v3', '-pthread', '-Wno-everything',
        '-fno-math-errno', '-ffp-contract=off']


def incl():
    return ['-I' + os.path.join(REPO, 'src/include')]


def build(prec='FLOAT64', inline=True, keep=(), only=None, scratch=None, extra=(), inst=False, flags=(), text=None):
    """returns path of the exported JSONL; caller removes the scratch directory"""
    scratch = scratch or tempfile.mkdtemp(prefix='armas_sa_')
    exp = exporter()
    srcs = sources() if text is None else []
    if only:
        srcs = [s for s in srcs if only(s)]

    def unit(name, text):
        p = os.path.join(scratch, name)
        with open(p, 'w') as f:
            f.write(text)
        o = p[:-2] + '.bc'
        r = subprocess.run(['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-D' + prec] + DEFS + incl() +
                           [p, '-o', o], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s: %s' % (name, r.stderr[-1500:]))
        return o

    def cc(s):
        o = os.path.join(scratch, s.replace('/', '_')[:-2] + '.bc')
        cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-D' + prec] + DEFS + incl() + list(extra)
        if s.endswith('version.c'):
            cmd += ['-DCOMPILER="c"', '-DCONFIG_SETTINGS="s"', '-DCOMPILE_TIME="t"']
        cmd += [os.path.join(REPO, 'src', s), '-o', o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s: %s' % (s, r.stderr[-1500:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(cc, srcs))
    if inst:
        # instantiate the inline functions of the public headers
        a = api(prec)
        names = sorted(n for n, o in a.items() if o['inline'])
        objs.append(unit('sa_api.c', ''.join('#include "%s"\n' % h for h in HEADERS) + 'void *sa_api_table[] = {\n' +
                         ''.join('(void *)%s,\n' % n for n in names) + '0};\n'))
    if text is not None:
        objs.append(unit('sa_unit.c', text))
    lb = os.path.join(scratch, 'all.bc')
    r = subprocess.run([LLVM + '/llvm-link', '-o', lb] + objs, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('llvm-link: ' + r.stderr[-1500:])
    out = os.path.join(scratch, 'all.jsonl')
    cmd = [exp, lb, out] + (['--inline-tiny-extern'] if inline else ['--no-inline']) + \
        (['--keep=' + ','.join(keep)] if keep else []) + list(flags)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('irexport: ' + r.stderr[-1500:])
    return out


def load(prec='FLOAT64', inline=True, keep=(), only=None, extra=(), inst=False, flags=(), text=None):
    import ir
    scratch = tempfile.mkdtemp(prefix='armas_sa_')
    try:
        p = build(prec, inline, keep, only, scratch, extra, inst, flags, text)
        M = ir.Module(p)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    M.nsources = len(sources())
    return M


def api(prec='FLOAT64', headers=HEADERS):
    """prototypes of the public headers: name -> dict(ret, params[(name,type)], inline, file)"""
    import json
    headers = [h for h in headers if os.path.exists(os.path.join(REPO, 'src/include', h))]
    src = ''.join('#include "%s"\n' % h for h in headers)
    cmd = ['clang', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-x', 'c', '-D' + prec] + DEFS + incl() + ['-']
    r = subprocess.run(cmd, input=src, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('headers: ' + r.stderr[-1500:])
    top = json.loads(r.stdout)
    out = {}
    cur = ''
    for d in top['inner']:
        loc = d.get('loc', {})
        l2 = loc.get('expansionLoc', loc)
        f = l2.get('file') or (loc.get('spellingLoc') or {}).get('file')
        if f:
            cur = f
        if d['kind'] != 'FunctionDecl' or '/src/include' not in cur:
            continue
        body = any(x['kind'] == 'CompoundStmt' for x in d.get('inner', []))
        ps = [(x.get('name', ''), x['type']['qualType']) for x in d.get('inner', []) if x['kind'] == 'ParmVarDecl']
        o = out.setdefault(d['name'], {'name': d['name'], 'type': d['type']['qualType'], 'params': ps, 'inline': False,
                                       'file': os.path.basename(cur), 'static': False})
        o['inline'] = o['inline'] or body
        o['static'] = o['static'] or d.get('storageClass') == 'static'
        o['ret'] = o['type'].split('(')[0].strip()
    return out
