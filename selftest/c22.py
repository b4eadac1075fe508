S = "pdr/_scaling.py"
P = "pdr/pdr.py"
H = "pdr/loaders/handlers.py"
FLAG = '''        unwrap = loader.func.__self__ if self.debug is True else loader
'''
TYPE = '''        if obj.__class__.__name__ != "ndarray":
            raise TypeError("get_scaled is only applicable to arrays.")
'''
EARLY = '''        if self._scaleflags.get(object_name) is True:
            return obj
'''
COPY = '''        if len(obj) == len(scale) == len(offset) > 1:
            planes = [
                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
            ]
            stacked = np.rollaxis(np.ma.dstack(planes), 2)
            return stacked
'''
INPL = '''    obj *= obj.dtype.type(scale)
    obj += obj.dtype.type(offset)
    return obj
'''
PDS4 = '''            if structure.is_array() is True:
                self._scaleflags[object_name] = True
'''
CASES = [
 ("debug_flag", "bug", [(P, FLAG, "        unwrap = loader\n")]),
 ("fits_flag", "bug", [(P, '(unwrap.__class__.__name__ == "ReadFits")', '(unwrap.__class__.__name__ == "ReadFITS")')]),
 ("no_pds4", "bug", [(P, PDS4, "")]),
 ("all_pds4", "bug", [(P, PDS4, ""), (P, "        from pdr.pds4_tools.reader.label_objects import Label\n\n        if isinstance(structure, Label):", "        from pdr.pds4_tools.reader.label_objects import Label\n\n        self._scaleflags[object_name] = True\n        if isinstance(structure, Label):")]),
 ("not_flagged", "bug", [(P, EARLY, "")]),
 ("early_first", "bug", [(P, TYPE + EARLY, EARLY + TYPE)]),
 ("jp2", "bug", [(H, '''    if meta['format'] == 'JPEG2000':
        return False
''', "")]),
 ("geo", "bug", [(H, "if any('GeoKey' in k for k in meta.keys()):", "if 'GeoKey' in meta.keys():")]),
 ("desk", "bug", [(H, "        return False\n    return True\n\n\ndef handle_fits_header", "        return False\n    return False\n\n\ndef handle_fits_header")]),
 ("pds4_inplace", "bug", [(S, "        array.copy(), special", "        array, special")]),
 ("order", "bug", [(S, "    return obj * scale + offset\n", "    return (obj + offset) * scale\n")]),
 ("swap", "bug", [(S, "return overflow_wrap(_copy_scale)(obj, offset, scale)", "return overflow_wrap(_copy_scale)(obj, scale, offset)")]),
 ("inplace_copy", "bug", [(S, "def _copy_scale(obj, offset, scale):\n", "def _copy_scale(obj, offset, scale):\n    obj *= scale\n    scale = 1\n")]),
 ("plane_zero", "bug", [(S, "obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))", "obj[ix] * scale[ix] + offset[0] for ix in range(len(scale))")]),
 ("units", "bug", [(S, '''        if isinstance(offset, dict):
            offset = offset["value"]
''', "")]),
 ("na_offset", "bug", [(S, '''            if offset.strip().upper() in {"NULL", "N/A", ""}:
                offset = 0
''', '''            if offset.strip().upper() in {"NULL", ""}:
                offset = 0
''')]),
 ("wrong_default", "bug", [(S, '''            if scale.strip().upper() in {"NULL", "N/A", ""}:
                scale = 1
''', '''            if scale.strip().upper() in {"NULL", "N/A", ""}:
                scale = 0
''')]),
 ("early_and", "bug", [(S, "    if (scale == 1) and (offset == 0):", "    if (scale == 1) or (offset == 0):")]),
 ("retry", "bug", [(S, '''                check_extremes(arr, offset, scale)
''', "")]),
 ("len", "bug", [(S, INPL, '''    if len(scale) == 1:
        return obj
''' + INPL)]),
 ("fits_std", "bug", [(P, '        if self.standard != "PDS3":\n            return obj\n', '        if self.standard not in ("PDS3", "FITS"):\n            return obj\n')]),
 ("flag_get", "ok", [(P, EARLY, '''        already_scaled = self._scaleflags.get(object_name, False)
        if already_scaled:
            return obj
''')]),
 ("ufuncs", "ok", [(S, "    return obj * scale + offset\n", "    result = np.multiply(obj, scale)\n    return np.add(result, offset)\n")]),
 ("inplace_out", "ok", [(S, INPL, '''    np.multiply(obj, obj.dtype.type(scale), out=obj)
    np.add(obj, obj.dtype.type(offset), out=obj)
    return obj
''')]),
 ("helper", "ok", [(S, '''        scale = block["SCALING_FACTOR"]
        if isinstance(scale, dict):
            scale = scale["value"]
        if isinstance(scale, str):
            # this would be incorrect label formatting but catching here is
            # better than lots of special cases
            if scale.strip().upper() in {"NULL", "N/A", ""}:
                scale = 1
''', '''        scale = _plain(block["SCALING_FACTOR"], 1)
'''), (S, '''        offset = block["OFFSET"]
        if isinstance(offset, dict):
            offset = offset["value"]
        if isinstance(offset, str):
            if offset.strip().upper() in {"NULL", "N/A", ""}:
                offset = 0
''', '''        offset = _plain(block["OFFSET"], 0)
'''), (S, "def scale_array(", '''def _plain(value, default):
    value = value["value"] if isinstance(value, dict) else value
    if isinstance(value, str):
        if value.strip().upper() in {"NULL", "N/A", ""}:
            return default
    return value


def scale_array(''')]),
 ("loop_planes", "ok", [(S, '''            planes = [
                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
            ]
''', '''            planes = []
            for plane, by, plus in zip(obj, scale, offset):
                planes.append(plane * by + plus)
''')]),
 ("isinstance", "ok", [(P, TYPE, '''        import numpy as np

        if type(obj).__name__ != "ndarray":
            raise TypeError("get_scaled is only applicable to arrays.")
''')]),
 ("flag_helper", "ok", [(P, '''        if (
            (unwrap.__class__.__name__ == "ReadFits")
            and (obj[pointer].__class__.__name__ == "ndarray")
        ):
            self._scaleflags[pointer] = True
        if (
            (unwrap.__class__.__name__ == 'ReadCompressedImage')
            and (obj[pointer].__class__.__name__ == "ndarray")
        ):
            from pdr.loaders.handlers import _check_prescaled_desktop

            self._scaleflags[pointer] = _check_prescaled_desktop(
                self.file_mapping[pointer]
            )
''', '''        self._flag_scaled(pointer, obj, unwrap.__class__.__name__)
'''), (P, '''    def get_scaled(
        self,
        object_name: str,
''', '''    def _flag_scaled(self, pointer, obj, kind):
        if kind not in ("ReadFits", "ReadCompressedImage"):
            return
        if obj[pointer].__class__.__name__ != "ndarray":
            return
        if kind == "ReadFits":
            self._scaleflags[pointer] = True
            return
        from pdr.loaders.handlers import _check_prescaled_desktop

        self._scaleflags[pointer] = _check_prescaled_desktop(
            self.file_mapping[pointer]
        )

    def get_scaled(
        self,
        object_name: str,
''')]),
 ("desk_expr", "ok", [(H, '''    if any('GeoKey' in k for k in meta.keys()):
        return False
    if meta['format'] == 'JPEG2000':
        return False
    return True
''', '''    has_geo = len([k for k in meta if 'GeoKey' in k]) > 0
    return not (has_geo or meta['format'] == 'JPEG2000')
''')]),
 ("geo_all", "bug", [(H, "    if any('GeoKey' in k for k in meta.keys()):", "    if all('GeoKey' in k for k in meta.keys()):")]),
 ("geo_case", "bug", [(H, "'GeoKey' in k for k in", "'geokey' in k for k in")]),
 ("pds4_hid", "bug", [(P, "            if structure.is_array() is True:\n                self._scaleflags[object_name] = True\n", "            if structure.is_array() is True and hid is not None:\n                self._scaleflags[object_name] = True\n")]),
 ("first_file", "bug", [(P, "            self._scaleflags[pointer] = _check_prescaled_desktop(\n                self.file_mapping[pointer]\n            )", "            self._scaleflags[pointer] = _check_prescaled_desktop(\n                self.filename\n            )")]),
]
