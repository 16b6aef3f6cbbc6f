"""Writes known_findings.json: python3 tools/findings.py (reads the fix commits' hashes from /repo)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # commit subject start -> property, what failed
    'count array elements with npy_intp': ('C07', "loop counters of type int wrapped for arrays with 2**31 or more elements"),
    'check that bincount indices': ('C12', "bincount of uint64 values >= 2**63 wrote outside the output"),
    'ordered compares consecutive': ('C10', "ordered on object arrays compared with the first element; NaN and invalid op codes gave the wrong answer"),
    'compute the unsigned peak-to-peak': ('C08', "peaktopeak of signed integers overflowed in the signed type (undefined behaviour)"),
    'percentileofscore always writes': ('C11', "percentileofscore with an invalid kind left its output unwritten"),
    'convert_to_base with base 0': ('C13', "convert_to_base crashed with SIGFPE for base 0 and for the smallest integer with base -1"),
    'release the objects that object outputs': ('C05', "object outputs leaked the objects the output array held before"),
    'stop an object loop when': ('C05', "an object loop went on calling Python after an element operation had raised"),
    'kbnsum honours the stride': ('C19', "kbnsum read consecutive memory, not the strided elements, after an infinity"),
    'unwrap did not convert': ('C17', "unwrap converted period counts to int (undefined for large or non-finite counts)"),
    'tri_area of a degenerate': ('C22', "tri_area gave nan for degenerate triangles"),
    'vnorm of an array': ('C21', "vnorm ignored nan in x, and gave nan for inf"),
    'sosfilter with no sections': ('C24', "sosfilter with zero sections left its output unwritten"),
    'linear_interp1d read beyond': ('C16', "linear_interp1d read beyond arrays with fewer than two elements"),
    'mad: n*n overflows': ('C23', "mad computed n*n in npy_intp, which overflows for arrays with more than 3037000499 elements"),
    'expint1: do not convert nan': ('C01', "expint1(nan) converted nan to int (undefined behaviour)"),
    'bincount: default m overflowed': ('C28', "bincount(x) with max(x) the largest value of x's integer type computed a negative or zero m"),
    'one_hot: unsigned integer': ('C28', "one_hot of unsigned integer arrays raised UFuncTypeError"),
    'bincount: result was garbage': ('C28', "bincount with an out array that needs a cast (byte-swapped, unaligned, other type), or float16 weights, accumulated into uninitialised memory"),
    'gendot: heap overflow': ('C27', "gendot allocated its temporary with the output item size of prodfunc only, and wrote beyond it"),
    'gendot: do not reduce': ('C27', "gendot reduced with loops whose output type differs from the input type, reading garbage"),
    'gendot: OverflowError': ('C27', "gendot raised OverflowError for the identity -1 of np.bitwise_and with unsigned types"),
    'gmean, gmeanw: -inf': ('C20', "gmean and gmeanw of an array with -inf were inf instead of nan"),
    'pmean, pmeanw: long double': ('C20', "pmean and pmeanw of long double arrays were computed with the double pow"),
    'erfcx: do not convert nan': ('C01', "erfcx(nan) converted nan to int (undefined behaviour)"),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for ln in log:
    h, s = ln.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    for k, (p, w) in PROP.items():
        if s[5:].startswith(k):
            fixed.append(f"fixed: property={p} {h} {w}")
            break
    else:
        print('unlisted', ln)
FIND = []
old = os.path.join(HERE, 'tools', 'open_findings.json')
if os.path.exists(old):
    FIND = json.load(open(old))
json.dump(dict(findings=FIND, fixed=fixed[::-1]), open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
