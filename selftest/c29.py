I = "pdr/loaders/image.py"
Q = "pdr/loaders/queries.py"
T = "pdr/loaders/table.py"
TX = "pdr/loaders/text.py"
H = "pdr/loaders/handlers.py"
D = "pdr/loaders/datawrap.py"
P = "pdr/pdr.py"
J = "pdr/formats/juno.py"
F = "pdr/func.py"
V = "pdr/parselabel/pds3.py"
PU = "pdr/parselabel/utils.py"
CASES = [
 ("image_none", "bug", [(I, "    except Exception as ex:\n        raise ex\n", "    except Exception as ex:\n        warnings.warn(str(ex))\n        return None\n")]),
 ("image_some", "bug", [(I, "    except Exception as ex:\n        raise ex\n", "    except Exception as ex:\n        if not isinstance(ex, MemoryError):\n            return None\n        raise\n")]),
 ("image_finally", "bug", [(I, "    finally:\n        f.close()\n    if \"PREFIX\" in name:\n        return pre\n    elif \"SUFFIX\" in name:\n        return suf\n    return image\n", "    finally:\n        f.close()\n        if \"PREFIX\" in name:\n            return pre\n        elif \"SUFFIX\" in name:\n            return suf\n        return image\n")]),
 ("records", "bug", [(Q, "        n_records = _extract_table_records(block)\n    except AttributeError:\n", "        n_records = _extract_table_records(block)\n    except Exception:\n")]),
 ("bare", "bug", [(Q, "        n_records = _extract_table_records(block)\n    except AttributeError:\n", "        n_records = _extract_table_records(block)\n    except:  # noqa\n")]),
 ("tuple", "bug", [(T, "    except (IndexError, UnicodeError, AttributeError, ParserError):\n", "    except (IndexError, Exception):\n")]),
 ("constant", "bug", [(T, "    except (IndexError, UnicodeError, AttributeError, ParserError):\n", "    except _BAD:\n"), (T, "def _read_table_from_stringio(", "_BAD = (UnicodeError, ParserError) + (Exception,)\n\n\ndef _read_table_from_stringio(")]),
 ("alias", "bug", [(T, "        except (pd.errors.EmptyDataError, pd.errors.ParserError):\n", "        except Failure:\n"), (T, "def _read_table_from_stringio(", "Failure = Exception\n\n\ndef _read_table_from_stringio(")]),
 ("suppress", "bug", [(T, "    try:\n        sep = check_explicit_delimiter(block)\n        return _read_as_delimited(sep, string_buffer, fmtdef)\n    except (IndexError, UnicodeError, AttributeError, ParserError):\n        string_buffer.seek(0)\n", "    from contextlib import suppress\n    with suppress(Exception):\n        sep = check_explicit_delimiter(block)\n        return _read_as_delimited(sep, string_buffer, fmtdef)\n    string_buffer.seek(0)\n")]),
 ("skip_lines", "bug", [(T, "        delimiter=PAD_CHARACTERS\n    )\n    return table\n", "        delimiter=PAD_CHARACTERS,\n        on_bad_lines=\"skip\",\n    )\n    return table\n")]),
 ("loader", "bug", [(D, "            load_exc = {\"status\": \"load_failed\"} | _format_exc_report(exc)\n            raise exc\n", "            load_exc = {\"status\": \"load_failed\"} | _format_exc_report(exc)\n            return {}\n")]),
 ("target", "bug", [(P, "        except FileNotFoundError:\n            if raise_missing is True:\n", "        except Exception:\n            if raise_missing is True:\n")]),
 ("header", "bug", [(TX, "    except (ValueError, OSError) as ex:\n", "    except Exception as ex:\n")]),
 ("fits_header", "bug", [(H, "        except (fits.VerifyError, ValueError):  # real messed up\n", "        except Exception:  # real messed up\n")]),
 ("juno", "bug", [(J, "    except (KeyError, IndexError):\n        warnings.warn(\"This key doesn't appear to be in the FITS file.\")\n        return None\n\n\ndef uvs", "    except Exception:\n        warnings.warn(\"This key doesn't appear to be in the FITS file.\")\n        return None\n\n\ndef uvs")]),
 ("special", "bug", [(F, "        except Exception as ex:\n            if error is None:\n                raise\n            return error(ex)\n", "        except Exception as ex:\n            if error is not None:\n                return error(ex)\n            return call_kwargfiltered(func, *args, **kwargs)\n")]),
 ("convert", "bug", [(T, "    # return read_strictly_fixed(string_buffer, colspecs, PAD_CHARACTERS)\n    table = pd.read_fwf(\n        string_buffer,\n        header=None,\n        colspecs=colspecs,\n        delimiter=PAD_CHARACTERS\n    )\n", "    try:\n        table = pd.read_fwf(\n            string_buffer,\n            header=None,\n            colspecs=colspecs,\n            delimiter=PAD_CHARACTERS\n        )\n    except Exception as ex:\n        raise ParserError(str(ex))\n")]),
 ("raise_inside", "bug", [(I, "    except Exception as ex:\n        raise ex\n", "    except Exception as ex:\n        try:\n            raise ValueError(str(ex))\n        except ValueError:\n            warnings.warn(str(ex))\n            image, pre, suf = None, None, None\n")]),
 ("literal", "bug", [(V, "    except (SyntaxError, ValueError, TypeError):\n", "    except Exception:\n")]),
 ("loop", "bug", [(PU, "            except UnicodeDecodeError:\n                raise InvalidAttachedLabel(\"File head appears to be binary.\")\n", "            except BaseException:\n                pass\n")]),
 # ---- the same behaviour, written otherwise
 ("ok_bare_raise", "ok", [(I, "    except Exception as ex:\n        raise ex\n", "    except Exception:\n        raise\n")]),
 ("ok_no_handler", "ok", [(I, "    except Exception as ex:\n        raise ex\n    finally", "    finally")]),
 ("ok_with", "ok", [(I, "    except Exception as ex:\n        raise ex\n    finally:\n        f.close()\n", "    except BaseException as ex:\n        warnings.warn(f\"{name}: {ex}\")\n        raise RuntimeError(f\"failed: {ex}\") from ex\n    finally:\n        f.close()\n")]),
 ("ok_helper", "ok", [(I, "    except Exception as ex:\n        raise ex\n", "    except Exception as ex:\n        _fail(ex)\n"), (I, "def read_image(", "def _fail(ex):\n    raise ex\n\n\ndef read_image(")]),
 ("ok_named", "ok", [(T, "    except (IndexError, UnicodeError, AttributeError, ParserError):\n", "    except _FALL_BACK:\n"), (T, "def _read_table_from_stringio(", "_FALL_BACK = (IndexError, UnicodeError, AttributeError, ParserError)\n\n\ndef _read_table_from_stringio(")]),
 ("ok_suppress", "ok", [(Q, "    try:\n        n_records = _extract_table_records(block)\n    except AttributeError:\n        n_records = None\n", "    from contextlib import suppress\n    n_records = None\n    with suppress(AttributeError):\n        n_records = _extract_table_records(block)\n")]),
 ("ok_special", "ok", [(F, "        except Exception as ex:\n            if error is None:\n                raise\n            return error(ex)\n", "        except Exception as ex:\n            if error is not None:\n                return error(ex)\n            raise\n")]),
 ("ok_load_helper", "ok", [(P, "            try:\n                target = self._target_path(name)\n                if target is None:\n                    return self._file_not_found(name)\n            except Exception as ex:\n                if self.debug:\n                    raise\n                warnings.warn(f\"Unable to locate {name}: {ex}\")\n                setattr(self, name, self.metaget_(name))\n                return\n            self.file_mapping[name] = target\n", "            target = self._locate(name)\n            if target is None:\n                return\n            self.file_mapping[name] = target\n"), (P, "    def load_all(self):\n", "    def _locate(self, name):\n        try:\n            target = self._target_path(name)\n            if target is None:\n                self._file_not_found(name)\n                return None\n            return target\n        except Exception as ex:\n            if self.debug:\n                raise\n            warnings.warn(f\"Unable to locate {name}: {ex}\")\n            setattr(self, name, self.metaget_(name))\n            return None\n\n    def load_all(self):\n")]),
 ("ok_loader", "ok", [(D, "        except Exception as exc:\n            load_exc = {\"status\": \"load_failed\"} | _format_exc_report(exc)\n            raise exc\n", "        except Exception as exc:\n            report = _format_exc_report(exc)\n            load_exc = {\"status\": \"load_failed\"}\n            load_exc.update(report)\n            raise\n")]),
 ("ok_target", "ok", [(P, "        except FileNotFoundError:\n            if raise_missing is True:\n                raise\n            return None\n", "        except FileNotFoundError:\n            if not raise_missing:\n                return None\n            raise\n")]),
]
