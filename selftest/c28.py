U = "pdr/parselabel/utils.py"
T = "pdr/loaders/table.py"
E = "pdr/formats/msl_edr.py"
G = "pdr/formats/mgs_moc.py"
R = "pdr/formats/mro.py"
B = "pdr/bit_handling.py"
H = "pdr/loaders/handlers.py"
D = "pdr/pd_utils.py"
X = "pdr/parselabel/pds4.py"
Q = "pdr/loaders/queries.py"
V = "pdr/parselabel/pds3.py"
EOF = "        if (chunk := buf.read(50 * 1024)) == b'':\n            break\n"
LEN = "        text, length = text + chunk, length + 50 * 1024\n"
FIRST = "        if firstfield == '':\n            break\n"
SCAN = "    length = 0\n    while length < max_size:\n" + EOF + "        for ending in KNOWN_LABEL_ENDINGS:\n            if (endmatch := re.search(ending, chunk)) is not None:\n                return text + chunk[: endmatch.span()[1]]\n" + LEN
STEP = "                i -= 1\n"
CASES = [
 ("trim_len", "bug", [(U, EOF, "        chunk = buf.read(50 * 1024)\n"), (U, LEN, "        text, length = text + chunk, length + len(chunk)\n")]),
 ("trim_none", "bug", [(U, "== b'':", "is None:"), (U, LEN, "        text, length = text + chunk, length + len(chunk)\n")]),
 ("trim_str", "bug", [(U, "== b'':", "== '':"), (U, LEN, "        text += chunk\n        length = len(text)\n")]),
 ("trim_seek", "bug", [(U, LEN, "        text, length = text + chunk, length + 50 * 1024\n        buf.seek(-60, 1)\n"), (U, "    while length < max_size:", "    while True:")]),
 ("fixed_bytes", "bug", [(T, "if firstfield == '':", "if firstfield == b'':")]),
 ("fixed_none", "bug", [(T, "if firstfield == '':", "if firstfield is None:")]),
 ("fixed_second", "bug", [(T, FIRST, "        if firstfield == '' and len(cols) > 0:\n            break\n")]),
 ("sync_4", "bug", [(E, "rewind_bytes(s, 3)", "rewind_bytes(s, 4)")]),
 ("bit_zero", "bug", [(E, "    if s.p >= s.length:\n        return -1\n", "    if s.p >= s.length:\n        return 0\n")]),
 ("bit_gt", "ok", [(E, "    if s.p >= s.length:\n", "    if s.p > s.length and s.bit:\n")]),
 ("align", "bug", [(E, "        if next_bit(s) == -1:\n            break\n", "        next_bit(s)\n")]),
 ("jpeg_seek", "bug", [(E, "        if len(two_bytes) < 2:\n            break\n", "        if two_bytes is None:\n            break\n")]),
 ("jpeg_back", "bug", [(E, "        two_bytes = fp.read(2)\n", "        two_bytes = fp.read(2)\n        fp.seek(pos)\n")]),
 ("moc_total", "bug", [(G, "total = total + MSDPHeader.HEADER_SIZE + h.length + 1", "total = h.down_offset")]),
 ("moc_header", "ok", [(G, "        if len(header_data) < MSDPHeader.HEADER_SIZE:\n", "        if header_data is None:\n")]),
 ("moc_sync", "bug", [(G, "        if offset + 1 >= len(data):\n            break\n", "        if offset + 1 >= len(data):\n            continue\n")]),
 ("dtype", "bug", [(B, "            lengths.pop()\n", "            pass\n")]),
 ("dupes", "bug", [(H, "[f\"{n}_{i}\" for i, n in enumerate(new)]", "[f\"{r}_{i}\" for i in range(len(indices))]")]),
 ("reindex", "bug", [(D, "[f\"{n}_{ix}\" for ix, n in enumerate(names)]", "[f\"{name}_{ix}\" for ix, n in enumerate(names)]")]),
 ("unpack", "bug", [(X, "            items += [(k, e) for e in reversed(v)]\n", "            items += [(k, e) for e in reversed(v)] or [(k, v)]\n")]),
 ("mcs_step", "bug", [(R, "        i += 1\n        for r", "        i += 0\n        for r")]),
 ("mcs_neg", "bug", [(R, "    if block_size < 0:\n        raise ValueError(f\"Records can't hold {block_size} data rows\")\n", "")]),
 ("format", "bug", [(Q, "        if (depth := depth + 1) > len(referenced):", "        if (depth := depth + 1) > 10 ** 6:")]),
 ("blocks", "bug", [(V, "            while len(self.names) > 0:\n                self._step_out()\n", "            while len(self.aggregations) > 0:\n                self.parameters.append(self.names)\n")]),
 ("elsewhere", "bug", [("pdr/loaders/_helpers.py", "def looks_like_ascii", "def skim(stream, size):\n    out = b''\n    while len(out) < size:\n        out += stream.read(size - len(out))\n    return out\n\n\ndef looks_like_ascii")]),
 ("elsewhere_lines", "bug", [("pdr/loaders/_helpers.py", "def looks_like_ascii", "def skim(stream):\n    n = 0\n    while True:\n        line = stream.readline()\n        if line.startswith('END'):\n            return n\n        n += len(line)\n\n\ndef looks_like_ascii")]),
 ("elsewhere_iter", "bug", [("pdr/loaders/_helpers.py", "def looks_like_ascii", "def skim(stream):\n    return b''.join(iter(lambda: stream.read(10), None))\n\n\ndef looks_like_ascii")]),
 ("elsewhere_down", "bug", [("pdr/loaders/_helpers.py", "def looks_like_ascii", "def skim(rows, n):\n    out = []\n    i = 0\n    while i < n:\n        out.append(rows)\n        i -= 1\n    return out\n\n\ndef looks_like_ascii")]),
 # the same behaviour, written otherwise
 ("trim_walrus", "ok", [(U, SCAN, "    length = 0\n    while length < max_size and (chunk := buf.read(50 * 1024)):\n        for ending in KNOWN_LABEL_ENDINGS:\n            if (endmatch := re.search(ending, chunk)) is not None:\n                return text + chunk[: endmatch.span()[1]]\n        length += 50 * 1024\n        text += chunk\n")]),
 ("trim_for", "ok", [(U, SCAN, "    for _ in range(0, max_size, 50 * 1024):\n        chunk = buf.read(50 * 1024)\n        if not chunk:\n            break\n        for ending in KNOWN_LABEL_ENDINGS:\n            if (endmatch := re.search(ending, chunk)) is not None:\n                return text + chunk[: endmatch.span()[1]]\n        text = text + chunk\n")]),
 ("trim_iter", "ok", [(U, SCAN, "    length = 0\n    for chunk in iter(lambda: buf.read(50 * 1024), b''):\n        for ending in KNOWN_LABEL_ENDINGS:\n            if (endmatch := re.search(ending, chunk)) is not None:\n                return text + chunk[: endmatch.span()[1]]\n        text, length = text + chunk, length + 50 * 1024\n        if length >= max_size:\n            break\n")]),
 ("trim_gen", "ok", [(U, SCAN, "    length = 0\n    for chunk in _chunks(buf):\n        if length >= max_size:\n            break\n        for ending in KNOWN_LABEL_ENDINGS:\n            if (endmatch := re.search(ending, chunk)) is not None:\n                return text + chunk[: endmatch.span()[1]]\n        text, length = text + chunk, length + 50 * 1024\n"), (U, "def _scan_to", "def _chunks(buf):\n    while True:\n        chunk = buf.read(50 * 1024)\n        if not chunk:\n            return\n        yield chunk\n\n\ndef _scan_to")]),
 ("trim_small", "ok", [(U, "buf.read(50 * 1024)", "buf.read(5 * 1024)"), (U, "length + 50 * 1024", "length + len(chunk)")]),
 ("fixed_while", "ok", [(T, "    while True:\n        firstfield = string_buffer.read(startwidth)\n" + FIRST, "    while firstfield := string_buffer.read(startwidth):\n")]),
 ("fixed_not", "ok", [(T, "if firstfield == '':", "if not firstfield:")]),
 ("sync_helper", "ok", [(E, "        for i in range(32):\n            bit = next_bit(s)\n            if bit == -1:\n                return False\n            sync |= bit << (31 - i)\n", "        for i in range(32):\n            if (bit := next_bit(s)) == -1:\n                return False\n            sync = (sync << 1) | bit\n")]),
 ("align_or", "ok", [(E, "    while s.p & 3:\n        if next_bit(s) == -1:\n            break\n", "    while s.p % 4 and s.p < s.length:\n        next_bit(s)\n")]),
 ("dtype_rewrite", "ok", [(B, "        if remaining_length - lengths[-1] < 0:\n            lengths.pop()\n            continue\n", "        while lengths[-1] > remaining_length:\n            lengths.pop()\n")]),
 ("dupes_helper", "ok", [(H, "        while not taken.isdisjoint(new):\n            new = [f\"{n}_{i}\" for i, n in enumerate(new)]\n", "        while True:\n            if taken.isdisjoint(new):\n                break\n            new = [f\"{n}_{i}\" for i, n in enumerate(new)]\n")]),
 ("unpack_rec", "ok", [(X, "            items += [(k, e) for e in reversed(v)]\n", "            for e in reversed(v):\n                items.append((k, e))\n")]),
 ("moc_for", "ok", [(G, "    while remaining > 0:\n        if offset + 1 >= len(data):\n            break\n", "    while remaining > 0 and offset + 1 < len(data):\n")]),
 ("count_for", "ok", [("pdr/loaders/_helpers.py", "def looks_like_ascii", "def free(names):\n    import itertools\n    for i in itertools.count():\n        if f'X{i}' not in names:\n            return f'X{i}'\n\n\ndef skim(stream, size):\n    out = b''\n    while len(out) < size:\n        part = stream.read(size - len(out))\n        if not part:\n            raise ValueError('ends early')\n        out += part\n    return out\n\n\ndef looks_like_ascii")]),
 ("elsewhere_ok", "ok", [("pdr/loaders/_helpers.py", "def looks_like_ascii", "def skim(stream):\n    n = 0\n    while n < 100:\n        line = stream.readline()\n        if line.startswith('END'):\n            return n\n        n += 1\n\n\ndef chain(x):\n    while x is not None:\n        x = x.parent\n\n\ndef wait(todo):\n    while todo:\n        a = todo.pop()\n        if a is None:\n            continue\n        todo.extend(a)\n\n\ndef looks_like_ascii")]),
]
