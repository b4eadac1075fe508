D = "pdr/datatypes.py"
S = "pdr/_scaling.py"
P = "pdr/pdr.py"
BODY = '''        if self.specials[object_name] != {}:
            obj = mask_specials(obj, list(self.specials[object_name].values()))
        return scale_array(self, obj, object_name, inplace, float_dtype)
'''
CASES = [
 ("drop_u64", "bug", [(D, '        "uint64": {},\n', '')]),
 ("typo", "bug", [(D, '"N/A": 65533', '"N/A": 65535')]),
 ("swap_sat", "bug", [(D, '"ISIS_LOW_INST_SAT": -32766,\n            "ISIS_LOW_REPR_SAT": -32767,', '"ISIS_LOW_INST_SAT": -32767,\n            "ISIS_LOW_REPR_SAT": -32766,')]),
 ("range", "bug", [(D, '"uint8": {"NULL": 0, "ISIS_SAT_HIGH": 255}', '"uint8": {"NULL": 0, "ISIS_SAT_HIGH": 256}')]),
 ("int_hex", "bug", [(D, 'read_hex("FF7FFFFE", ">f")', 'read_hex("FF7FFFFE", ">I")')]),
 ("little", "bug", [(D, '"ISIS_HIGH_REPR_SAT": read_hex("FF7FFFFF", ">f")', '"ISIS_HIGH_REPR_SAT": read_hex("FF7FFFFF", "<f")')]),
 ("drop_kw", "bug", [(D, '    "MISSING_CONSTANT",\n', '')]),
 ("no_isis", "bug", [(D, 'PDS3_CONSTANT_NAMES = tuple(PDS3_ISIS_CONSTANT_NAMES + PDS3_CONSTANT_NAMES)', 'PDS3_CONSTANT_NAMES = tuple(PDS3_CONSTANT_NAMES)')]),
 ("scale_first", "bug", [(P, BODY, '''        scaled = scale_array(self, obj, object_name, inplace, float_dtype)
        if self.specials[object_name] != {}:
            return mask_specials(
                scaled, list(self.specials[object_name].values())
            )
        return scaled
''')]),
 ("only_big", "bug", [(P, "        if self.specials[object_name] != {}:\n", "        if self.specials[object_name] != {} and obj.ndim > 1:\n")]),
 ("more_than_one", "bug", [(P, "        if self.specials[object_name] != {}:\n", "        if len(self.specials[object_name]) > 1:\n")]),
 ("not_inplace", "bug", [(P, "        if self.specials[object_name] != {}:\n", "        if self.specials[object_name] != {} and not inplace:\n")]),
 ("lost_mask", "bug", [(S, "        obj.mask = np.isin(obj.data, values)\n", "        mask = np.isin(obj.data, values)\n")]),
 ("double", "bug", [(S, "        values = np.array(specials, dtype=obj.dtype)\n", "        values = np.array(specials)\n")]),
 ("only_nan", "bug", [(S, "        obj.mask = np.ma.mask_or(np.isin(obj.data, values),\n                                 ~np.isfinite(obj.data))", "        obj.mask = ~np.isfinite(obj.data)")]),
 ("no_implicit_i16", "bug", [(S, 'if obj.dtype.name == "uint8":\n        return specials', 'if obj.dtype.name in ("uint8", "int16"):\n        return {}')]),
 ("pds4", "bug", [(S, "array.copy(), special_constants=special_constants, **scale_kwargs", "array.copy(), None, **scale_kwargs") if False else (S, "special_constants=special_constants, **scale_kwargs", "special_constants=None, scaling_factor=element_array.get('scaling_factor'), value_offset=element_array.get('value_offset')")]),
 ("ok_truthy", "ok", [(P, "        if self.specials[object_name] != {}:\n", "        if self.specials[object_name]:\n")]),
 ("ok_len", "ok", [(P, "        if self.specials[object_name] != {}:\n", "        if len(self.specials[object_name]) > 0:\n")]),
 ("ok_always", "ok", [(P, "        if self.specials[object_name] != {}:\n            obj = ", "        if True:\n            obj = ")]),
 ("ok_local", "ok", [(P, BODY, '''        specials = self.specials[object_name]
        if specials:
            masked = mask_specials(obj, list(specials.values()))
            return scale_array(self, masked, object_name, inplace, float_dtype)
        return scale_array(self, obj, object_name, inplace, float_dtype)
''')]),
 ("ok_early", "ok", [(P, BODY, '''        constants = tuple(self.specials[object_name].values())
        if len(constants) == 0:
            return scale_array(self, obj, object_name, inplace, float_dtype)
        return scale_array(
            self, mask_specials(obj, constants), object_name, inplace,
            float_dtype=float_dtype
        )
''')]),
 ("ok_helper", "ok", [(P, BODY, '''        obj = self._masked(obj, object_name)
        return scale_array(self, obj, object_name, inplace, float_dtype)

    def _masked(self, obj, object_name):
        from pdr._scaling import mask_specials

        if self.specials[object_name] == {}:
            return obj
        return mask_specials(obj, list(self.specials[object_name].values()))
''')]),
 ("ok_mask_local", "ok", [(S, '''    if np.nan in specials:
        # masks infs and nans as well
        obj.mask = np.ma.mask_or(np.isin(obj.data, values),
                                 ~np.isfinite(obj.data))
    else:
        obj.mask = np.isin(obj.data, values)
    return obj''', '''    mask = np.isin(obj.data, values)
    if np.nan in specials:
        mask |= ~np.isfinite(obj.data)
    obj.mask = mask
    return obj''')]),
 ("ok_mask_ctor", "ok", [(S, '''    if np.nan in specials:
        # masks infs and nans as well
        obj.mask = np.ma.mask_or(np.isin(obj.data, values),
                                 ~np.isfinite(obj.data))
    else:
        obj.mask = np.isin(obj.data, values)
    return obj''', '''    mask = np.isin(obj.data, values)
    if np.nan in specials:
        mask = mask | ~np.isfinite(obj.data)
    return np.ma.masked_array(obj, mask=mask)''')]),
 ("ok_table", "ok", [(D, '        "int64": {"N/A": -2147483648, "UNK": 2147483647},', '        "int64": {"N/A": -(2**31), "UNK": 2**31 - 1},')]),
 ("ok_found", "ok", [(S, '''    return specials | {
        possibility: constant
        for possibility, constant in implicit_possibilities.items()
        if constant in obj
    }''', '''    for possibility, constant in implicit_possibilities.items():
        if constant in obj:
            specials[possibility] = constant
    return specials''')]),
]
