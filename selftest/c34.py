S = "pdr/_scaling.py"
T = "pdr/pds4_tools/reader/data_types.py"
CHECK = "                check_extremes(arr, offset, scale)\n"
CASES = [
 ("no_check", "bug", [(S, CHECK, "")]),
 ("only_max", "bug", [(S, "for extreme in (arr.min(), arr.max()):", "for extreme in (arr.max(),):")]),
 ("only_min", "bug", [(S, "for extreme in (arr.min(), arr.max()):", "for extreme in (arr.min(),):")]),
 ("check_scale_only", "bug", [(S, "            extreme * scale + offset\n", "            extreme * scale\n")]),
 ("no_filter", "bug", [(S, '            warnings.filterwarnings("error", message=".*overflow enc.*")\n', "")]),
 ("filter_once", "bug", [(S, 'warnings.filterwarnings("error", message=".*overflow enc.*")', 'warnings.filterwarnings("once", message=".*overflow enc.*")')]),
 ("filter_msg", "bug", [(S, 'warnings.filterwarnings("error", message=".*overflow enc.*")', 'warnings.filterwarnings("error", message="invalid value")')]),
 ("only_overflow", "bug", [(S, "except (OverflowError, RuntimeWarning):", "except OverflowError:")]),
 ("no_final", "bug", [(S, "              *(p + offset for p in products))", "              )")]),
 ("no_products", "ok", [(S, "    bounds = (amin, amax, scale, offset, *products,\n", "    bounds = (amin, amax, scale, offset,\n")]),
 ("wide_first", "ok", [(S, "(1, 2, 4, 8), np.iinfo, int", "(8,), np.iinfo, int")]),
 ("signed_first", "bug", [(S, "bases, widths, infofunc, num = ('u', 'i'), (1, 2, 4, 8)", "bases, widths, infofunc, num = ('i',), (1, 2, 4)")]),
 ("off_by_one", "bug", [(S, "smax <= num(cinfo.max)", "smax <= num(cinfo.max) + 1")]),
 ("abs_only", "bug", [(S, "if smin >= num(cinfo.min) and smax <= num(cinfo.max):", "if smax - smin <= num(cinfo.max) - num(cinfo.min):")]),
 ("float32", "bug", [(S, "        widths = (4, 8) if arr.dtype.kind == \"f\" else (8,)\n", "        widths = (4, 8)\n")]),
 ("planes_no_check", "bug", [(S, "    if has_scale_per_plane(arr, scale, offset):\n        for plane in zip", "    if False:\n        for plane in zip")]),
 ("planes_first", "bug", [(S, "arr.astype(np.result_type(*(fit.dtype for fit in fits)))", "arr.astype(next(iter(fits)).dtype)")]),
 ("masked_special", "bug", [(S, "                if np.ma.isMaskedArray(arr):", "                if False:")]),
 ("inplace_cast", "bug", [(S, "        return overflow_wrap(_inplace_scale)(obj, offset, scale)\n", "        return _inplace_scale(obj, offset, scale)\n")]),
 ("copy_no_wrap", "bug", [(S, "    return overflow_wrap(_copy_scale)(obj, offset, scale)", "    return _copy_scale(obj, offset, scale)")]),
 ("back_cast", "bug", [(S, "    return overflow_wrap(_copy_scale)(obj, offset, scale)", "    return overflow_wrap(_copy_scale)(obj, offset, scale).astype(obj.dtype)")]),
 ("swapped_fit", "bug", [(S, "arr = fit_to_scale(arr, scale, offset)\n                return", "arr = fit_to_scale(arr, offset, scale)\n                return")]),
 ("p4_nounscaled", "ok", [(T, "                                      include_unscaled=True)", "                                      include_unscaled=False)")]),
 ("p4_nodtype", "bug", [(T, "    data = adjust_array_data_type(data, scaling_factor, value_offset)\n", "")]),
 ("p4_min", "bug", [(T, "    elif abs_max <= 32767:\n        dtype = 'int16'", "    elif abs_max <= 65535:\n        dtype = 'int16'")]),
 ("p4_float32", "bug", [(T, "        new_dtype = 'float64'\n\n    # Data should be integer", "        new_dtype = 'float32'\n\n    # Data should be integer")]),
 ("p4_offset_forgotten", "bug", [(T, "max_scaled_data = max_data * scaling_factor + value_offset", "max_scaled_data = max_data * scaling_factor")]),
 ("ok_helper", "ok", [(S, "        for extreme in (arr.min(), arr.max()):\n            extreme * scale + offset\n", "        lowest, highest = arr.min(), arr.max()\n        _ = lowest * scale + offset\n        _ = highest * scale + offset\n")]),
 ("ok_errstate", "ok", [(S, '        with warnings.catch_warnings():\n            warnings.filterwarnings("error", message=".*overflow enc.*")\n', '        with np.errstate(over="raise"), warnings.catch_warnings():\n'), (S, "except (OverflowError, RuntimeWarning):", "except (OverflowError, FloatingPointError):"), (S, '''                    warnings.filterwarnings(
                        "ignore", message=".*overflow enc.*"
                    )
''', '''                    np.seterr(over="ignore")
''')]),
 ("ok_range", "ok", [(S, "    smin, smax = min(bounds), max(bounds)\n", "    ordered = sorted(bounds)\n    smin, smax = ordered[0], ordered[-1]\n")]),
 ("ok_loop", "ok", [(S, '''    for base, width in product(bases, widths):
        candidate = np.dtype(f'{base}{width}')
''', '''    for candidate in [
        np.dtype(f'{base}{width}') for base in bases for width in widths
    ]:
''')]),
 ("ok_numpy_min", "ok", [(S, "for extreme in (arr.min(), arr.max()):", "for extreme in (np.min(arr), np.max(arr)):")]),
 ("ok_int64", "ok", [(S, "    # try to perform the operation in-place if requested, although if", "    scale, offset = (offset, scale)[::-1]\n    # try to perform the operation in-place if requested, although if")]),
]
