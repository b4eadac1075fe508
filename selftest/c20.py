I = "pdr/loaders/image.py"
Q = "pdr/loaders/queries.py"
BST = '''    if bst == "BAND_SEQUENTIAL":
        image = image.reshape(bands, lines, samples)
    elif bst == "SAMPLE_INTERLEAVED":
        image = image.reshape(lines, samples, bands)
        image = np.moveaxis(image, 2, 0)
'''
BIL = '''        image, prefix, suffix = extract_bil_linefix(image, props)
        image = image.reshape(lines, bands, samples)
        image = np.moveaxis(image, 0, 1)
'''
AX = '''        aslice, pslice = [], []
        for i in range(len(image.shape)):
            if i != axn:
                aslice.append(slice(None, None, None))
                pslice.append(slice(None, None, None))
            elif side == "prefix":
                aslice.append(slice(count, None))
                pslice.append(slice(None, count))
            else:
                aslice.append(slice(None, -count))
                pslice.append(slice(-count, None))
        axplanes[f"{side}_{ax}s"] = image[tuple(pslice)]
        image = image[tuple(aslice)]
'''
RET = "    image, axplanes = extract_axplanes(image, props)\n    return make_c_contiguous(image), axplanes, prefix, suffix\n\n\ndef extract_axplanes"
CASES = [
 ("bip_axis", "bug", [(I, "np.moveaxis(image, 2, 0)", "np.moveaxis(image, 0, 2)")]),
 ("bil_axis", "bug", [(I, "np.moveaxis(image, 0, 1)", "np.moveaxis(image, 0, 2)")]),
 ("bil_shape", "bug", [(I, "image.reshape(lines, bands, samples)", "image.reshape(bands, lines, samples)"), (I, "        image = np.moveaxis(image, 0, 1)\n", "")]),
 ("not_contig", "bug", [(I, RET, RET.replace("make_c_contiguous(image)", "image"))]),
 ("contig_early", "bug", [(I, RET, "    image = make_c_contiguous(image)\n" + RET.replace("make_c_contiguous(image)", "image"))]),
 ("no_vax_multi", "bug", [(I, "    image = convert_if_vax(image, props)\n    bands, lines", "    bands, lines")]),
 ("vax_type", "bug", [(Q, 'block.get("SAMPLE_TYPE") == "VAX_REAL"', 'block.get("SAMPLE_TYPE") == "VAXG_REAL"')]),
 ("swap_pads", "bug", [(I, '''        props["nrows"] + props["rowpad"],
        props["ncols"] + props["colpad"],''', '''        props["nrows"] + props["colpad"],
        props["ncols"] + props["rowpad"],''')]),
 ("pad_assign", "bug", [(Q, 'axplane_metadata[f"{rowcol[ax]}pad"] += int(fix_pix)', 'axplane_metadata[f"{rowcol[ax]}pad"] = int(fix_pix)')]),
 ("fix_assign", "bug", [(Q, 'linefix_metadata["linepad"] += int(fix_pix)', 'linefix_metadata["linepad"] = int(fix_pix)')]),
 ("no_suffix_cut", "bug", [(I, "        image = image[:, : -props[\"line_suffix_pix\"]]\n    if props.get(\"line_prefix_pix\", 0)", "    if props.get(\"line_prefix_pix\", 0)")]),
 ("bil_prefix_off", "bug", [(I, '''    if props.get("line_prefix_pix") is not None:
        prefix = image[:, : props["line_prefix_pix"]]
        image = image[:, props["line_prefix_pix"] :]''', '''    if props.get("line_prefix_pix") is not None:
        prefix = image[:, : props["line_prefix_pix"]]
        image = image[:, props["linepad"] :]''')]),
 ("fix_bytes", "bug", [(Q, 'linefix_metadata[f"line_{side.lower()}_pix"] = int(fix_pix)', 'linefix_metadata[f"line_{side.lower()}_pix"] = int(fixbytes)')]),
 ("no_band_axis", "bug", [(I, '("row", "col", "band")', '("row", "col")')]),
 ("no_2d_adjust", "bug", [(I, "        axn = axn - 1 if len(image.shape) == 2 else axn\n", "")]),
 ("axes_swapped", "bug", [(I, '"row": (1, "LINE"),\n            "col": (2, "SAMPLE"),', '"row": (2, "LINE"),\n            "col": (1, "SAMPLE"),')]),
 ("check_2plus", "bug", [(Q, 'props["band_storage_type"] not in (None, "LINE_INTERLEAVED")', 'props["band_storage_type"] == "BAND_SEQUENTIAL"')]),
 ("check_late", "bug", [(Q, "    check_fix_validity(props)\n    # NOTE", "    # NOTE"), (I, "    image, axplanes = extract_axplanes(image, props)\n    return make_c_contiguous(image), axplanes, prefix, suffix\n\n\ndef extract_bil", "    from pdr.loaders.queries import check_fix_validity\n    check_fix_validity(props)\n    image, axplanes = extract_axplanes(image, props)\n    return make_c_contiguous(image), axplanes, prefix, suffix\n\n\ndef extract_bil")]),
 ("check_colonly", "bug", [(Q, '(props["rowpad"] + props["colpad"] + props["bandpad"]) > 0', '(props["rowpad"] + props["colpad"]) > 0')]),
 ("bands_dropped", "bug", [(Q, 'props["nbands"] = block["BANDS"]', 'props["nbands"] = 1')]),
 ("qube_order", "bug", [(Q, 'tuple(reversed(props["axnames"]))', 'tuple(props["axnames"])')]),
 ("zero_suffix", "bug", [(I, "in (None, 0):", "is None:")]),
 ("band_suffix1", "bug", [(I, 'if props["nbands"] + props["bandpad"] == 1:', 'if props["nbands"] == 1:')]),
 ("bil_count", "bug", [(Q, '''        * (props["nbands"] + props["bandpad"])
        + props["linepad"]
    )''', '''        + props["linepad"]
    ) * (props["nbands"] + props["bandpad"])''')]),
 ("bst_guess", "bug", [(I, '        bst = "BAND_SEQUENTIAL"\n    _,', '        bst = "SAMPLE_INTERLEAVED"\n    _,')]) if False else
 ("axname_block", "bug", [(Q, 'ax_map = {"LINE": "nrows", "SAMPLE": "ncols", "BAND": "nbands"}', 'ax_map = {"LINE": "ncols", "SAMPLE": "nrows", "BAND": "nbands"}')]),
 ("ok_table", "ok", [(I, BST, '''    layouts = {
        "BAND_SEQUENTIAL": ((bands, lines, samples), (0, 1, 2)),
        "SAMPLE_INTERLEAVED": ((lines, samples, bands), (2, 0, 1)),
    }
    if bst in layouts:
        shape, order = layouts[bst]
        image = image.reshape(shape).transpose(order)
''')]),
 ("ok_roll", "ok", [(I, "np.moveaxis(image, 2, 0)", "np.moveaxis(image, -1, 0)")]),
 ("ok_swap", "ok", [(I, "np.moveaxis(image, 0, 1)", "image.swapaxes(0, 1)")]),
 ("ok_ascontig", "ok", [(I, RET, RET.replace("make_c_contiguous(image)", "np.ascontiguousarray(image)"))]),
 ("ok_slices", "ok", [(I, AX, '''        cut = slice(count, None) if side == "prefix" else slice(None, -count)
        plane = slice(None, count) if side == "prefix" else slice(-count, None)
        lead = (slice(None),) * axn
        axplanes[f"{side}_{ax}s"] = image[lead + (plane,)]
        image = image[lead + (cut,)]
''')]),
 ("ok_stop", "ok", [(I, "aslice.append(slice(None, -count))", "aslice.append(slice(0, image.shape[i] - count))")]),
 ("ok_minus_one", "ok", [(I, 'image.reshape(props["nrows"], int(image.size / props["nrows"]))', 'image.reshape(props["nrows"], -1)')]),
 ("ok_floor", "ok", [(I, 'int(image.size / props["nrows"])', 'image.size // props["nrows"]')]),
 ("ok_helper", "ok", [(I, BIL, '''        image, prefix, suffix = _arrange_bil(image, props, bands, lines, samples)
'''), (I, "def extract_axplanes(", '''def _arrange_bil(image, props, bands, lines, samples):
    image, prefix, suffix = extract_bil_linefix(image, props)
    return (
        np.moveaxis(image.reshape(lines, bands, samples), 0, 1),
        prefix,
        suffix,
    )


def extract_axplanes(''')]),
 ("ok_flip", "ok", [(I, '''    if props["linepad"] == 0:
        return image, None, None
    prefix, suffix = None, None
    image = image.reshape(props["nrows"], props["ncols"] + props["linepad"])''', '''    prefix, suffix = None, None
    if not props["linepad"]:
        return image, prefix, suffix
    width = props["linepad"] + props["ncols"]
    image = image.reshape((props["nrows"], width))''')]),
 ("ok_vax_after", "ok", [(I, "    image = convert_if_vax(image, props)\n    bands, lines", "    bands, lines"), (I, RET, "    image = convert_if_vax(image, props)\n" + RET)]),
 ("ok_pixels", "ok", [(Q, '''    props["pixels"] = (props["nrows"] + props["rowpad"]) * (
        (props["ncols"] + props["colpad"])
        * (props["nbands"] + props["bandpad"])
        + props["linepad"]
    )''', '''    rows = props["nrows"] + props["rowpad"]
    width = (props["ncols"] + props["colpad"]) * (
        props["nbands"] + props["bandpad"]
    )
    props["pixels"] = rows * width + rows * props["linepad"]''')]),
 ("ok_refuse_more", "ok", [(Q, '''    if (
        (props["linepad"] > 0)
        and props["band_storage_type"] not in (None, "LINE_INTERLEAVED")
        and props["nbands"] > 1
    ):''', '''    bil = props["band_storage_type"] in (None, "LINE_INTERLEAVED")
    if props["linepad"] and not bil and props["nbands"] != 1:''')]),
 ("ok_while", "ok", [(I, "for i in range(len(image.shape)):", "for i, _ in enumerate(image.shape):")]),
 ("ok_with", "ok", [(I, '''    try:
        f.seek(start_byte)
        # Make sure that single-band images are 2-dim arrays.
''', '''    try:
        f.seek(start_byte)
        single = process_single_band_image
''')]),
]
