"""Which registered loops each property is decided on."""
from . import specs_pcd, specs_py, specs_gendot, acc

TRUSTED = ["clang 18 front end and LLVM passes always-inline, sroa, simplifycfg, loop-simplify, lcssa, loop-unroll (full unrolling of constant loops) (the verified text is their output)",
           "dv: the VC generator, its memory model and its loop-invariant rule", "z3"]
ASSUMPTIONS = [
    "the compiler used for the installed build (gcc -O3) implements the same source semantics as the verified LLVM IR",
    "NumPy calls a loop with valid, correctly typed, correctly aligned arguments; outputs of a gufunc do not overlap its inputs or each other; distinct elements of one output do not overlap",
    "dimension sizes are below 2**60 and address arithmetic does not overflow",
    "callbacks into Python (comparison, arithmetic of objects) do not modify the arrays being processed",
    "memory allocation succeeds"]

# public element types (promised to the user): m.attr -> list of type strings; None: not pinned
TYPES = {}


def T(mod, *attrs):
    return [(mod, a) for a in attrs]


MM = T('_minmax', 'argmin', 'argmax', 'min_argmin', 'max_argmax', 'minmax', 'argminmax')

OBJECT = ([('_first', 'first'), ('_first', 'argfirst')] + MM
          + T('_peaktopeak', 'peaktopeak') + T('_searchsorted', 'searchsortedl', 'searchsortedr') + T('_ordered', 'ordered') + T('_all_same', 'all_same')
          + T('_cross', 'cross2', 'cross3'))

ALLMODULES = []


def modules():
    if not ALLMODULES:
        from . import extract
        ALLMODULES.extend(m for m in extract.modules() if m not in ('_gendot', '_ufunc_inspector'))
    return ALLMODULES


def all_targets(tables):
    return [(m, u['attr']) for m in sorted(tables) for u in tables[m]['ufuncs']]


PROPS = {
    'C01': dict(targets=all_targets, modules='all', mode='memory', opts=dict(limit=150),
                kinds=('memory', 'frame', 'type', 'termination', 'division', 'unreachable', 'conversion', 'overflow', 'coverage'), extra=(specs_gendot.memory,)),
    'C05': dict(targets=OBJECT, kinds=('reference', 'exception', 'coverage', 'memory'), filter=lambda m, a, ch: 'O' in ch),
    'C04': dict(targets=specs_pcd.INLOOP, modules=sorted({m for m, d in specs_pcd.MINIMUM.values()}), kinds=('exception',),
                extra=(specs_pcd.core_dims,)),
    'C06': dict(targets=T('_first', 'first', 'argfirst')),
    'C07': dict(targets=MM),
    'C08': dict(targets=T('_peaktopeak', 'peaktopeak')),
    'C09': dict(targets=T('_searchsorted', 'searchsortedl', 'searchsortedr')),
    'C10': dict(targets=T('_ordered', 'ordered') + T('_all_same', 'all_same')),
    'C11': dict(targets=T('_percentileofscore', 'percentileofscore')),
    'C12': dict(targets=T('_bincount', 'bincount', 'bincountw')),
    'C13': dict(targets=T('_convert_to_base', 'convert_to_base') + T('_one_hot', 'one_hot')),
    'C14': dict(targets=T('_next', 'next_greater', 'next_less') + T('_nextn', 'nextn_greater', 'nextn_less')),
    'C15': dict(targets=T('_backlash', 'backlash', 'backlash_sum') + T('_hysteresis_relay', 'hysteresis_relay')),
    'C16': dict(targets=T('_fillnan1d', 'fillnan1d') + T('_linear_interp1d', 'linear_interp1d')),
    'C17': dict(targets=T('_unwrap', 'unwrap')),
    'C18': dict(targets=T('_softmax', 'softmax') + T('_multivariate_logbeta', 'multivariate_logbeta')),
    'C19': dict(targets=T('_kbnsum', 'kbnsum')),
    'C20': dict(targets=T('_means', 'pmeanw', 'pmean', 'gmean', 'gmeanw', 'hmean', 'hmeanw')),
    'C21': dict(targets=T('_meanvar', 'meanvar') + T('_corr', 'pearson_corr') + T('_vnorm', 'rms', 'vnorm') + T('_wjaccard', 'wjaccard')),
    'C22': dict(targets=T('_cross', 'cross2', 'cross3') + T('_vnorm', 'vdot') + T('_tri_area', 'tri_area', 'tri_area_indexed')),
    'C23': dict(targets=T('_mad', 'mad', 'gini', 'rmad')),
    'C24': dict(targets=T('_sosfilter', 'sosfilter', 'sosfilter_ic', 'sosfilter_ic_contig')),
    'C25': dict(targets=T('_step', 'step', 'linearstep', 'smoothstep3', 'smoothstep5', 'invsmoothstep3') + T('_deadzone', 'deadzone')
                + T('_trapezoid_pulse', 'trapezoid_pulse') + T('_ramp', 'exponential_ramp', 'hyperbolic_ramp') + T('_nan_to_num', 'nan_to_num')
                + T('_issnan', 'issnan') + T('semivar', 'exponential', 'linear', 'parabolic', 'spherical')),
    'C26': dict(targets=T('_abs_squared', 'abs_squared') + T('_abssq', 'abssq') + T('_hypot3', 'hypot3')
                + T('_logistic', 'logistic', 'logistic_deriv', 'log_logistic', 'swish') + T('_pow1pm1', 'pow1pm1')
                + T('_yeo_johnson', 'yeo_johnson', 'inv_yeo_johnson')),
    'C30': dict(targets=T('_logfact', 'logfactorial') + T('_expint1', 'expint1', 'logexpint1') + T('normal', 'cdf', 'sf', 'logcdf', 'logsf', 'erfcx')
                + T('_loggamma1p', 'loggamma1p') + T('_log1p', 'log1p_theorem4', 'log1p_doubledouble')),
    'C29': dict(targets=[], modules=['_debye1', 'normal', '_expint1', '_loggamma1p', '_logfact', '_logistic'], extra=(acc.accuracy,)),
    'C27': dict(targets=[], modules=['_gendot'], extra=(specs_gendot.gendot,)),
    'C28': dict(targets=[], modules=list(specs_py.MODS), extra=(specs_py.wrappers,)),
}
