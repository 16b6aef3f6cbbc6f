"""Mechanical extraction: /repo's current working tree -> LLVM IR (+ a loadable module for the
registered loop tables).  Runs the repository's own generators the way ufunclab/meson.build does, in
a scratch copy, and compiles the resulting translation units with clang at -O0."""
import os, re, shutil, subprocess, sys, json, hashlib, tempfile

REPO = os.environ.get("DV_REPO", "/repo")
CLANG, CLANGXX = "clang-18", "clang++-18"
for c in ("clang", "clang++"):
    pass
LLVM = "/usr/lib/llvm-18/bin/"
PY = "/opt/venv/bin/python"

GUFUNC_CXX = ['all_same', 'bincount', 'backlash', 'convert_to_base', 'corr', 'cross', 'fillnan1d',
              'first', 'hysteresis_relay', 'kbnsum', 'mad', 'meanvar', 'minmax',
              'multivariate_logbeta', 'nextn', 'one_hot', 'ordered', 'percentileofscore', 'softmax',
              'sosfilter', 'tri_area', 'unwrap', 'vnorm', 'wjaccard']
UFUNC_CXX = ['abs_squared', 'deadzone', 'expint1', 'hypot3', 'logistic', 'nan_to_num', 'next',
             'pow1pm1', 'ramp', 'semivar', 'step', 'trapezoid_pulse', 'yeo_johnson']
TEMPLATED_GUFUNC = ['linear_interp1d', 'means', 'peaktopeak', 'searchsorted']
TEMPLATED_UFUNC = ['issnan']
PLAIN = {'_debye1': ['debye1/debye1_ufunc.c', 'debye1/debye1_generated.c'],
         '_log1p': ['log1p/log1p_ufunc.c'],
         '_logfact': ['logfactorial/logfactorial_ufunc.c', 'logfactorial/logfactorial.c'],
         '_loggamma1p': ['loggamma1p/loggamma1p_ufunc.c', 'loggamma1p/loggamma1p.c'],
         '_gendot': ['gendot/gendotmodule.c'],
         '_ufunc_inspector': ['ufunc-inspector/ufunc_inspector.c'],
         '_abssq': ['abssq/abssq_ufunc.cpp']}
NEEDS_NPYMATH = {'_linear_interp1d', '_means', '_peaktopeak', '_searchsorted', '_abssq'} | set(PLAIN)


def modules():
    r = {}
    for d in GUFUNC_CXX:
        r['_' + d] = ('gufunc', d)
    for d in UFUNC_CXX:
        r['semivar' if d == 'semivar' else '_' + d] = ('ufunc', d)
    r['normal'] = ('normal', 'normal')
    for d in TEMPLATED_GUFUNC:
        r['_' + d] = ('tgufunc', d)
    for d in TEMPLATED_UFUNC:
        r['_' + d] = ('tufunc', d)
    for m in PLAIN:
        r[m] = ('plain', None)
    return r


class ExtractError(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=300, ok=False):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    if p.returncode and not ok:
        raise ExtractError(f"{' '.join(map(str, cmd))[:400]}\nexit {p.returncode}\n{p.stdout[-3000:]}")
    return p


def clean_env():
    e = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["OMP_NUM_THREADS"] = "1"
    return e


_np_inc = None


def np_include():
    global _np_inc
    if _np_inc is None:
        _np_inc = sh([PY, "-c", "import numpy;print(numpy.get_include())"], env=clean_env()).stdout.strip().splitlines()[-1]
    return _np_inc


def stage(scratch):
    """Copy the working tree's sources into scratch/repo."""
    root = os.path.join(scratch, "repo")
    os.makedirs(root)
    for d in ("src", "tools", "ufunclab", "_build_utils"):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(root, d),
                            ignore=shutil.ignore_patterns("__pycache__", "tests"))
    os.makedirs(os.path.join(root, "build", "ufunclab", "p"))
    return root


def generate(root, mod):
    """Run the generator for module `mod`; returns [(path, lang)] of translation units (relative to build)."""
    memo = os.path.join(root, "build", mod + ".tus")
    if not os.path.exists(memo):
        r = generate_(root, mod)
        with open(memo, "w") as f:
            json.dump(r, f)
    with open(memo) as f:
        return [tuple(x) for x in json.load(f)]


def generate_(root, mod):
    kind, d = modules()[mod]
    b = os.path.join(root, "build")
    env = clean_env()
    if kind == 'gufunc':
        sh([PY, "../tools/cxxgen/generate_gufunc.py", f"../src/{d}", "./ufunclab"], cwd=b, env=env)
        return [(f"ufunclab/{mod}.cxx", "c++")]
    if kind == 'ufunc':
        sh([PY, "../tools/cxxgen/generate_ufuncs.py", f"../src/{d}", "./ufunclab"], cwd=b, env=env)
        return [(f"ufunclab/{mod}.cxx", "c++"), (f"ufunclab/{d}_concrete.cxx", "c++")]
    if kind == 'normal':
        sh([PY, "../tools/cxxgen/generate_ufuncs.py", "../src/normal", "./ufunclab"], cwd=b, env=env)
        return [("ufunclab/" + f, "c++") for f in
                ("normal.cxx", "normal_concrete.cxx", "erfcx_funcs.cxx", "erfcx_funcs_concrete.cxx")]
    if kind == 'tgufunc':
        sh([PY, "../tools/conv_template.py", f"../src/{d}/{d}_gufunc.c.src", "./ufunclab"], cwd=b, env=env)
        return [(f"ufunclab/{d}_gufunc.c", "c")]
    if kind == 'tufunc':
        sh([PY, "../tools/conv_template.py", f"../src/{d}/{d}_ufunc.c.src", "./ufunclab"], cwd=b, env=env)
        return [(f"ufunclab/{d}_ufunc.c", "c")]
    return [(f"../src/{f}", "c++" if f.endswith("cpp") else "c") for f in PLAIN[mod]]


def cflags():
    return ["-Iufunclab/p", "-Iufunclab", "-I../ufunclab", "-I" + np_include(), "-I/usr/include/python3.12",
            "-I/usr/include/x86_64-linux-gnu/python3.12", "-DNDEBUG", "-D_FILE_OFFSET_BITS=64", "-fPIC", "-w"]


KEEP = re.compile(r'^@"?(Py_|_Py_|_ZL\d+_?Py_|PyInit|main|_ZNK?St(6vector|12_Vector_base)|'
                  r'_ZSt(4sort|11stable_sort|11nth_element|12partial_sort|13__introsort|6__sort|22__final_ins|9make_heap|9sort_heap)I|_ZNSt12_Vector)')


# scalar functions that the functional mode takes as uninterpreted functions of their argument (their bodies are verified for memory and
# undefined behaviour with everything inlined, and for accuracy in C29)
PURE = {'normal': re.compile(r'^@_ZL?\d+(erfcx_y100)([fde])$')}


def prepare(text, keep=None):
    """Mark every function defined in the module for inlining, except the library functions that are
    taken through contracts, so that each registered loop becomes one self-contained body."""
    out = []
    for ln in text.split('\n'):
        if ln.startswith('attributes #'):
            ln = re.sub(r'\b(noinline|optnone|alwaysinline)\b', '', ln)
        elif ln.startswith('define'):
            m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
            name = m.group(1)
            if not KEEP.match(name) and not (keep and keep.match(name)):
                # after the parameter list's closing parenthesis
                d, i = 0, m.end() - 1
                while True:
                    if ln[i] == '(':
                        d += 1
                    elif ln[i] == ')':
                        d -= 1
                        if d == 0:
                            break
                    i += 1
                rest = re.sub(r'^( (?:local_unnamed_addr|unnamed_addr))?', lambda k: k.group(0) + ' alwaysinline', ln[i + 1:], count=1)
                ln = ln[:i + 1] + rest
        out.append(ln)
    return '\n'.join(out)


def compile_ir(root, mod):
    """-> path of linked .ll for the module, helpers inlined, memory promoted to registers"""
    tus = generate(root, mod)
    b = os.path.join(root, "build")
    outs = []
    for i, (f, lang) in enumerate(tus):
        o = f"{mod}.{i}.ll"
        cc = [LLVM + "clang++", "-std=c++17"] if lang == "c++" else [LLVM + "clang", "-std=c99"]
        sh(cc + cflags() + ["-O1", "-Xclang", "-disable-llvm-passes", "-Xclang", "-disable-lifetime-markers", "-funroll-loops", "-ffp-contract=off", "-fno-discard-value-names",
                            "-fexceptions" if lang == "c++" else "-fno-exceptions",
                            "-S", "-emit-llvm", f, "-o", o], cwd=b)
        outs.append(o)
    raw = os.path.join(b, mod + ".raw.ll")
    if len(outs) > 1:
        sh([LLVM + "llvm-link", "-S"] + outs + ["-o", raw], cwd=b)
    else:
        os.replace(os.path.join(b, outs[0]), raw)
    ll = os.path.join(b, mod + ".ll")
    with open(raw) as f:
        t0 = f.read()
    for keep, o in [(None, ll)] + ([(PURE[mod], os.path.join(b, mod + ".m.ll"))] if mod in PURE else []):
        with open(o + ".p", "w") as f:
            f.write(prepare(t0, keep))
        sh([LLVM + "opt", "-S", "-passes=always-inline,function(sroa,simplifycfg,loop-simplify,lcssa,loop-unroll<O2;full-unroll-max=8;no-peeling;no-partial;no-runtime;no-upperbound>,loop-simplify,lcssa)", o + ".p", "-o", o], cwd=b)
    return ll


def build_so(root, mod, native=False, tag="", extra=()):
    """Build a loadable module. native=True: gcc -O3 from the generated sources, as meson does.
    Otherwise: from the extracted IR (same function names as the verified text)."""
    b = os.path.join(root, "build")
    npl = os.path.join(np_include(), "..", "lib")
    libs = ["-L" + npl, "-lnpymath", "-lm"] if mod in NEEDS_NPYMATH else ["-lm"]
    if not native:
        out = os.path.join(b, mod + ".ir.so")
        sh([LLVM + "clang++", "-shared", "-O0", "-fPIC", "-w", os.path.join(b, mod + ".raw.ll"), "-o", out] + libs, cwd=b)
        return out
    dest = os.path.join(b, "pkg" + tag, "ufunclab")
    os.makedirs(dest, exist_ok=True)
    out = os.path.join(dest, mod + ".cpython-312-x86_64-linux-gnu.so")
    tus = generate(root, mod)
    objs = []
    for i, (f, lang) in enumerate(tus):
        o = os.path.join(b, f"{mod}.{i}{tag}.o")
        cc = ["g++", "-std=c++17"] if lang == "c++" else ["gcc", "-std=c99"]
        sh(cc + cflags() + ["-O3", *extra, "-c", f, "-o", o], cwd=b)
        objs.append(o)
    sh(["g++", "-shared", "-fPIC", *extra, *objs, "-o", out] + libs, cwd=b)
    for f in ("__init__.py", "_wrapped.py", "_gendot_wrap.py"):
        s = os.path.join(root, "ufunclab", f)
        if os.path.exists(s):
            shutil.copy(s, dest)
    return out


DUMP = r'''
import sys, json, ctypes, importlib.util, subprocess
import numpy as np
so, mod = sys.argv[1:3]
spec = importlib.util.spec_from_file_location(mod, so)
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
syms = {}
for line in subprocess.run(["nm", so], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    p = line.split()
    if len(p) == 3 and p[1] in "tTwWvV":
        syms.setdefault(int(p[0], 16), []).append(p[2])
base = None
for line in open("/proc/self/maps"):
    if line.rstrip().endswith(so):
        a = int(line.split("-")[0], 16); off = int(line.split()[2], 16)
        base = a - off; break
class PyUFuncObject(ctypes.Structure):
    _fields_ = [("refcnt", ctypes.c_ssize_t), ("type", ctypes.c_void_p),
        ("nin", ctypes.c_int), ("nout", ctypes.c_int), ("nargs", ctypes.c_int), ("identity", ctypes.c_int),
        ("functions", ctypes.POINTER(ctypes.c_void_p)), ("data", ctypes.POINTER(ctypes.c_void_p)),
        ("ntypes", ctypes.c_int), ("reserved1", ctypes.c_int), ("name", ctypes.c_char_p),
        ("types", ctypes.POINTER(ctypes.c_char)), ("doc", ctypes.c_void_p), ("ptr", ctypes.c_void_p),
        ("obj", ctypes.c_void_p), ("userloops", ctypes.c_void_p),
        ("core_enabled", ctypes.c_int), ("core_num_dim_ix", ctypes.c_int),
        ("core_num_dims", ctypes.POINTER(ctypes.c_int)), ("core_dim_ixs", ctypes.POINTER(ctypes.c_int)),
        ("core_offsets", ctypes.POINTER(ctypes.c_int)), ("core_signature", ctypes.c_char_p),
        ("type_resolver", ctypes.c_void_p), ("dict", ctypes.c_void_p), ("vectorcall", ctypes.c_void_p), ("reserved3", ctypes.c_void_p),
        ("op_flags", ctypes.c_void_p), ("iter_flags", ctypes.c_uint), ("core_dim_sizes", ctypes.POINTER(ctypes.c_ssize_t)),
        ("core_dim_flags", ctypes.c_void_p), ("identity_value", ctypes.c_void_p),
        ("dispatch_cache", ctypes.c_void_p), ("loops", ctypes.c_void_p),
        ("process_core_dims", ctypes.c_void_p)]
def sym(a):
    if not a: return None
    return syms.get(a - base, ["?0x%x" % a])[0]
res = []
attrs = {}
for k in dir(m):
    o = getattr(m, k)
    if isinstance(o, np.ufunc):
        u = PyUFuncObject.from_address(id(o))
        nargs = u.nargs
        loops = []
        for i in range(u.ntypes):
            loops.append(dict(types=[int.from_bytes(u.types[i*nargs+j], "little") for j in range(nargs)],
                              func=sym(u.functions[i]), data=sym(u.data[i]) if u.data else None,
                              data_null=not (u.data and u.data[i])))
        res.append(dict(attr=k, name=o.__name__, nin=u.nin, nout=u.nout, loops=loops, ident=u.identity,
                        sig=o.signature, pcd=sym(u.process_core_dims), tstr=o.types))
    elif isinstance(o, (int, float)) and not isinstance(o, bool):
        attrs[k] = o
print("@@" + json.dumps(dict(ufuncs=res, attrs=attrs)))
'''


def dump_table(so, mod):
    p = sh([PY, "-c", DUMP, so, mod], env=clean_env())
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    raise ExtractError("no table: " + p.stdout[-1000:])


if __name__ == "__main__":
    import time
    s = tempfile.mkdtemp(prefix="dvx")
    root = stage(s)
    for m in sys.argv[1:] or modules():
        t = time.time()
        ll = compile_ir(root, m)
        t1 = time.time()
        so = build_so(root, m)
        d = dump_table(so, m)
        print(m, round(t1 - t, 2), round(time.time() - t1, 2), ll, [(u["name"], u["pcd"], [l["func"] for l in u["loops"]][:2], u["loops"][0]["data"]) for u in d["ufuncs"]][:3])
