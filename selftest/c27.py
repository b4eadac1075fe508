P = "pdr/parselabel/pds3.py"
CASES = [
 ("pop_first", "bug", [(P, "self.add_statement(self.names.pop(), self.aggregations.pop())", "self.add_statement(self.names.pop(0), self.aggregations.pop())")]),
 ("end_prefix", "bug", [(P, "elif extract_pvl_block_terminal(parameter) is not None:", "elif parameter.startswith(\"END\"):")]),
 ("end_group", "bug", [(P, r'END(_(OBJECT|GROUP)(?!\w)|$)', r'END(_OBJECT|$)')]),
 ("no_guard", "bug", [(P, "                if len(self.names) > 0:\n                    self._step_out()\n", "                self._step_out()\n")]),
 ("unclosed", "bug", [(P, "            while len(self.names) > 0:\n                self._step_out()\n", "")]),
 ("no_warn", "bug", [(P, "            warnings.warn(\n                \"Leftover", "            str(\n                \"Leftover")]),
 ("maxsplit", "bug", [(P, 'assignment.split("=", 1)', 'assignment.split("=")')]),
 ("replace_maps", "bug", [(P, "                output_multidict.add(key, value)\n            continue", "                output_multidict[key] = value\n            continue")]),
 ("replace_vals", "bug", [(P, "            output_multidict.add(key, setter_function(input_object, value))", "            output_multidict[key] = setter_function(input_object, value)")]),
 ("typeerror", "bug", [(P, "    except (SyntaxError, ValueError, TypeError):\n        try:", "    except (SyntaxError, ValueError):\n        try:")]),
 ("no_index", "bug", [(P, "        except IndexError:\n            a = 1\n", "")]),
 ("no_param", "bug", [(P, "        self.aggregations[-1].add(parameter, value)\n        self.parameters.append(parameter)", "        self.aggregations[-1].add(parameter, value)\n        if len(self.names) < 2:\n            self.parameters.append(parameter)")]),
 ("begin_group", "bug", [(P, '"BEGIN_OBJECT", "BEGIN_GROUP")', '"BEGIN_OBJECT")')]),
 ("set_not_add", "bug", [(P, "        self.aggregations[-1].add(parameter, value)\n", "        self.aggregations[-1][parameter] = value\n")]),
 ("none_value", "bug", [(P, "            a = 1\n    return obj", "            return None\n    return obj")]),
 ("depth", "bug", [(P, "        self.aggregations.append(MultiDict())", "        self.aggregations.append(MultiDict())\n        self.aggregations = self.aggregations[-8:]")]),
 ("units", "bug", [(P, "            except AttributeError:\n                # not actually-matched brackets\n                output.append(obj)", "            except KeyError:\n                # not actually-matched brackets\n                output.append(obj)")]),
 ("ok_recursive", "ok", [(P, "        for parameter, value in statements:\n            if parameter in PVL_BLOCK_INITIALS:", "        for statement in statements:\n            parameter, value = statement\n            if parameter in set(PVL_BLOCK_INITIALS):")]),
 ("ok_partition", "ok", [(P, '            parameter, value_head = map(str.strip, assignment.split("=", 1))', '            parameter, found, value_head = map(str.strip, assignment.partition("="))\n            if not found:\n                continue')]),
 ("ok_index", "ok", [(P, "        except IndexError:\n            a = 1\n", "        except IndexError:\n            pass\n")]),
 ("ok_while", "ok", [(P, "            while len(self.names) > 0:\n                self._step_out()\n", "            for _ in range(len(self.names)):\n                self._step_out()\n")]),
 ("ok_inline", "ok", [(P, "            if parameter in PVL_BLOCK_INITIALS:\n                self._step_in(value)", "            if parameter in PVL_BLOCK_INITIALS:\n                self.names.append(value)\n                self.aggregations.append(MultiDict())")]),
 ("ok_stack", "ok", [(P, '''        """Exit a block."""
        self.add_statement(self.names.pop(), self.aggregations.pop())''', '''        """Exit a block."""
        contents = self.aggregations[-1]
        del self.aggregations[-1]
        name = self.names.pop()
        self.aggregations[-1].add(name, contents)
        self.parameters += [name]''')]),
 ("ok_comp", "ok", [(P, '''    trimmed_lines = filter(
        None, map(lambda line: line.strip(), uncommented_label.split("\\n"))
    )
''', '''    trimmed_lines = [
        line.strip() for line in uncommented_label.split("\\n") if line.strip()
    ]
''')]),
 ("ok_digedit", "ok", [(P, "    for key, value in input_multidict.items():\n        if (is_map := isinstance(value, mtypes)) is True:", "    for key, value in input_multidict.items():\n        is_map = isinstance(value, mtypes)\n        if is_map:")]),
]
