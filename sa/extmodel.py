"""What the analyses assume about code outside the package.

Default for anything not listed: the call returns a new value that depends on
all arguments and changes none of them.
"""

# numpy functions that are also array methods; x.f(a) and numpy.f(x, a) become the same term
NP_METHODS = {
    "sum", "mean", "std", "var", "max", "min", "any", "all", "prod", "argsort", "cumsum", "cumprod", "copy",
    "reshape", "ravel", "clip", "round", "dot", "squeeze", "repeat", "argmin", "argmax", "transpose", "nonzero",
    "searchsorted", "take", "diagonal", "trace", "swapaxes", "ptp",
}

RENAME = {
    "numpy.product": "numpy.prod", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "builtins.abs": "numpy.abs", "math.fabs": "numpy.abs",
    "numpy.alltrue": "numpy.all", "numpy.sometrue": "numpy.any", "numpy.cumproduct": "numpy.cumprod",
    "math.exp": "numpy.exp", "math.log": "numpy.log", "math.sqrt": "numpy.sqrt", "numpy.power": "numpy.power",
    "scipy.special.expit": "expit", "builtins.sum": "numpy.sum", "numpy.flatten": "numpy.ravel",
    "math.isnan": "numpy.isnan", "math.isfinite": "numpy.isfinite", "math.isinf": "numpy.isinf",
    "pandas.isnull": "numpy.isnan", "pandas.isna": "numpy.isnan", "math.sinh": "numpy.sinh",
    "math.asinh": "numpy.arcsinh", "math.cosh": "numpy.cosh", "numpy.around": "numpy.round",
    "builtins.round": "numpy.round", "numpy.round_": "numpy.round", "numpy.bitwise_and": "bit&",
    "numpy.asinh": "numpy.arcsinh", "numpy.acosh": "numpy.arccosh", "math.acosh": "numpy.arccosh",
    "six.moves.range": "builtins.range", "six.moves.zip": "builtins.zip", "six.moves.map": "builtins.map",
    "numpy.nan": "numpy.nan", "numpy.NaN": "numpy.nan", "numpy.NAN": "numpy.nan", "math.nan": "numpy.nan",
    "numpy.Inf": "numpy.inf", "math.inf": "numpy.inf", "numba.prange": "builtins.range",
    "numpy.concat": "numpy.concatenate",
}

# arithmetic ufuncs that mean the same as an operator
UFUNC_BIN = {
    "numpy.add": "Add", "numpy.subtract": "Sub", "numpy.multiply": "Mult", "numpy.divide": "Div",
    "numpy.true_divide": "Div", "numpy.power": "Pow", "numpy.logical_and": "BitAnd", "numpy.logical_or": "BitOr",
    "numpy.bitwise_and": "BitAnd", "numpy.bitwise_or": "BitOr", "bit&": "BitAnd", "numpy.floor_divide": "FloorDiv",
    "numpy.mod": "Mod", "numpy.remainder": "Mod", "operator.add": "Add", "operator.sub": "Sub",
    "operator.mul": "Mult", "operator.truediv": "Div", "operator.and_": "BitAnd", "operator.or_": "BitOr",
    "numpy.left_shift": "LShift", "numpy.bitwise_xor": "BitXor", "numpy.logical_xor": "BitXor",
}
UFUNC_CMP = {
    "numpy.greater": ">", "numpy.greater_equal": ">=", "numpy.less": "<", "numpy.less_equal": "<=",
    "numpy.equal": "==", "numpy.not_equal": "!=",
}
UFUNC_UN = {"numpy.negative": "neg", "numpy.logical_not": "inv", "numpy.invert": "inv", "numpy.bitwise_not": "inv"}

# value passes through unchanged; result may share memory with the argument
TRANSPARENT_ALIAS = {
    "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.require",
    "numpy.asarray_chkfinite", "pandas.Series", "meth.to_numpy", "meth.view", "meth.infer_objects",
}
# value passes through unchanged; result owns its memory
TRANSPARENT_COPY = {"numpy.array", "numpy.copy", "copy.copy", "copy.deepcopy", "meth.to_list", "meth.tolist",
                    "meth.copy", "meth.__copy__", "meth.__deepcopy__"}
# value is rearranged; result may share memory
VIEW_FUNCS = {
    "numpy.ravel", "numpy.reshape", "numpy.squeeze", "numpy.transpose", "numpy.swapaxes", "numpy.expand_dims",
    "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.broadcast_to", "numpy.moveaxis",
    "numpy.split", "numpy.array_split", "numpy.hsplit", "numpy.diagonal", "numpy.rollaxis", "numpy.flip",
    "numpy.flipud", "numpy.fliplr", "meth.get", "meth.head", "meth.tail", "meth.to_frame", "numpy.frombuffer",
    "meth.iterrows", "meth.items", "meth.itertuples", "meth.reset_index", "meth.set_index", "meth.rename",
    "meth.filter", "meth.xs", "meth.pipe",
}
# positional index of the output argument
OUT_POS = {"numpy.clip": 3, "numpy.round": 2, "numpy.exp": 1, "numpy.log": 1, "numpy.abs": 1, "numpy.sqrt": 1,
           "numpy.add": 2, "numpy.subtract": 2, "numpy.multiply": 2, "numpy.divide": 2, "numpy.maximum": 2,
           "numpy.minimum": 2, "numpy.cumsum": 3, "numpy.true_divide": 2, "numpy.power": 2}
MUTATES_ARG0 = {
    "numpy.put", "numpy.place", "numpy.copyto", "numpy.putmask", "numpy.fill_diagonal", "numpy.put_along_axis",
    "numpy.random.shuffle", "random.shuffle", "heapq.heappush", "heapq.heapify", "numpy.add.at",
    "numpy.subtract.at", "numpy.multiply.at", "numpy.maximum.at", "numpy.minimum.at", "operator.iadd",
    "operator.isub", "operator.imul", "operator.setitem", "operator.delitem",
}
MUTATING_METHODS = {"fill", "itemset", "put", "partition", "setdefault", "popitem", "pop", "setfield", "setflags",
                    "byteswap", "__setitem__", "__delitem__", "__iadd__", "__isub__", "__imul__"}
# only when the result is discarded or the receiver is a known container
MUTATING_STMT_METHODS = {"append", "extend", "insert", "remove", "clear", "update", "add", "discard", "reverse",
                         "sort", "resize", "shuffle", "difference_update", "intersection_update"}

FRESH_ALLOC = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like",
               "numpy.empty_like", "numpy.full_like", "numpy.arange", "numpy.linspace", "numpy.repeat"}

REDUCTIONS = {"numpy.sum", "numpy.mean", "numpy.std", "numpy.var", "numpy.max", "numpy.min", "numpy.any",
              "numpy.all", "numpy.prod", "numpy.median", "numpy.average", "numpy.nansum", "numpy.nanmean",
              "numpy.nanmax", "numpy.nanmin", "numpy.nanmedian", "numpy.nanstd", "numpy.quantile",
              "numpy.percentile", "numpy.argmax", "numpy.argmin", "numpy.dot", "numpy.count_nonzero",
              "numpy.nanquantile", "numpy.nanpercentile", "numpy.ptp", "numpy.nanvar", "builtins.max",
              "builtins.min", "builtins.any", "builtins.all"}

# numpy ufunc-like functions working element by element
ELEMENTWISE = {
    "numpy.exp", "numpy.log", "numpy.abs", "numpy.sqrt", "numpy.isfinite", "numpy.isnan", "numpy.isinf",
    "numpy.sign", "numpy.round", "numpy.floor", "numpy.ceil", "numpy.sinh", "numpy.arcsinh", "numpy.cosh",
    "numpy.arccosh", "numpy.tanh", "numpy.arctanh", "numpy.log1p", "numpy.expm1", "numpy.minimum", "numpy.maximum",
    "numpy.fmin", "numpy.fmax", "numpy.clip", "numpy.where", "numpy.nan_to_num", "numpy.isin", "numpy.in1d",
    "expit", "scipy.special.erfinv", "scipy.special.erf", "scipy.special.logit", "numpy.square", "numpy.rint",
    "numpy.sin", "numpy.cos", "numpy.isclose", "numpy.trunc", "numpy.select", "numpy.log10", "numpy.log2",
    "numpy.reciprocal", "cast", "numpy.vectorize", "numpy.searchsorted", "numpy.digitize", "numpy.signbit",
    "numpy.interp", "numpy.piecewise", "numpy.choose", "numpy.divmod", "builtins.float", "builtins.int",
    "builtins.bool", "scipy.special.gammaln", "math.lgamma", "numpy.float64",
}

FLOAT_DTYPES = {"numpy.float64", "builtins.float", "numpy.float_", "numpy.double", "numpy.float32"}
