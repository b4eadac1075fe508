"""A file system, its streams and the compression libraries, as the abstract
interpreter sees them: the contents are concrete bytes chosen by a rule, and
nothing of the real file system is touched."""
from __future__ import annotations

import fnmatch
import io
import posixpath
from pathlib import PurePosixPath as P

from .absint import (AExc, AObj, Cond, Fn, Model, Partial, Top, Undecided)

CWD = "/cwd"
FAMILY = {
    "raw": ("io.BufferedReader", "io.BufferedIOBase", "io.IOBase",
            "_io.BufferedReader"),
    "gzip": ("gzip.GzipFile", "io.BufferedIOBase", "io.IOBase"),
    "igzip": ("gzip.GzipFile", "isal.igzip.IGzipFile", "isal.igzip.GzipFile",
              "io.BufferedIOBase", "io.IOBase"),
    "bz2": ("bz2.BZ2File", "io.BufferedIOBase", "io.IOBase"),
    "lzma": ("lzma.LZMAFile", "io.BufferedIOBase", "io.IOBase"),
    "zip": ("zipfile.ZipExtFile", "io.BufferedIOBase", "io.IOBase"),
    "mem": ("io.BytesIO", "io.BufferedIOBase", "io.IOBase"),
    "text": ("io.TextIOWrapper", "io.TextIOBase", "io.IOBase"),
    "smem": ("io.StringIO", "io.TextIOBase", "io.IOBase"),
}
PACKED = {".gz": "gzip", ".bz2": "bz2", ".zip": "zip", ".xz": "lzma",
          ".z": "?", ".lzma": "lzma", ".zst": "?", ".tgz": "?"}
METHODS = ("read", "seek", "close", "tell", "readline", "readlines",
           "readable", "seekable", "readinto", "read1", "peek", "flush")


class File:
    """what is at a path: its bytes, and what they hold when it is packed"""

    def __init__(self, data=b"", packed=None):
        self.packed = packed            # gzip | bz2 | zip | lzma | None
        self.plain = data
        self.raw = data if packed is None else packed_bytes(packed, data)


def packed_bytes(kind, data):
    """bytes that are not the contents: shorter, binary, recognisable"""
    head = {"gzip": b"\x1f\x8b\x08", "bz2": b"BZh", "zip": b"PK\x03\x04",
            "lzma": b"\xfd7z"}.get(kind, b"\x1f\x9d")
    return head + b"\xff\x00\xa9\xf1\xd7\xfe" * 3


class Stream(AObj):
    def __init__(self, kind, data, name=None, fs=None, under=None):
        self.kind, self.data, self.name = kind, data, name
        self.pos = 0
        self.closed = False
        self.fs, self.under = fs, under

    def key(self):
        return self

    def a_truth(self, m):
        return True

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n == "object" or n in FAMILY[self.kind] or
                   n in ("typing.IO", "typing.BinaryIO") for n in names)

    def a_attr(self, m, name):
        if name == "closed":
            return self.closed
        if name == "name" and self.name is not None:
            return self.name
        if name in ("raw", "buffer", "fileobj") and self.under is not None:
            return self.under
        if name in METHODS or name in ("getvalue", "getbuffer") and \
                self.kind in ("mem", "smem"):
            return Method(self, name)
        if name in ("getvalue", "getbuffer"):
            raise AExc("AttributeError")
        return NotImplemented

    def a_iter(self, m):
        out = []
        while True:
            x = self.line(m)
            if not x:
                return out
            out.append(x)

    def check(self, m):
        if self.closed:
            raise AExc("ValueError")

    def line(self, m):
        self.check(m)
        nl = "\n" if isinstance(self.data, str) else b"\n"
        i = self.data.find(nl, self.pos)
        j = len(self.data) if i < 0 else i + 1
        x = self.data[self.pos:j]
        self.pos = max(j, self.pos)
        return x

    def close(self):
        self.closed = True
        if self.kind == "text" and self.under is not None:
            self.under.close()

    def a_method(self, m, name, args, kw, node):
        if name == "close":
            self.close()
            return None
        if name in ("readable", "seekable"):
            return True
        if name in ("flush", "__exit__"):
            return None
        self.check(m)
        if name in ("read", "read1", "peek", "readline"):
            n = args[0] if args else kw.get("size", -1)
            if n is None:
                n = -1
            if not isinstance(n, int) or isinstance(n, AObj):
                raise Undecided("size of a read")
            m.event("read", self, self.pos, n)
            if name == "readline":
                return self.line(m)
            x = self.data[self.pos:] if n < 0 else \
                self.data[self.pos:self.pos + n]
            if name != "peek":
                self.pos += len(x)
            return x
        if name == "readlines":
            return self.a_iter(m)
        if name in ("getvalue", "getbuffer"):
            return self.data
        if name == "tell":
            return self.pos
        if name == "seek":
            off = args[0] if args else kw.get("offset", 0)
            wh = args[1] if len(args) > 1 else kw.get("whence", 0)
            if not isinstance(off, int) or not isinstance(wh, int):
                raise Undecided("seek")
            base = (0, self.pos, len(self.data))[int(wh)]
            if base + off < 0:
                raise AExc("ValueError" if self.kind in ("mem", "smem")
                           else "OSError")
            self.pos = base + off
            return self.pos
        if name == "write":
            if self.kind not in ("mem", "smem"):
                raise AExc("io.UnsupportedOperation")
            d = args[0]
            if not isinstance(d, (str, bytes)):
                raise Undecided("written value")
            self.data = self.data[:self.pos] + d + self.data[
                self.pos + len(d):]
            self.pos += len(d)
            return len(d)
        if name == "__enter__":
            return self
        if name == "__next__":
            x = self.line(m)
            if not x:
                raise AExc("StopIteration")
            return x
        if name == "fileno":
            return 3
        raise Undecided(f"stream.{name}")


class Method(AObj):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def a_call(self, m, args, kw, node):
        return m.call_method(self.obj, self.name, args, kw, node)

    def a_truth(self, m):
        return True


class Zip(AObj):
    def __init__(self, fs, name, f):
        self.fs, self.name, self.f = fs, name, f

    def a_truth(self, m):
        return True

    def a_attr(self, m, name):
        if name == "filelist":
            return ["member"]
        return NotImplemented

    def a_method(self, m, name, args, kw, node):
        if name in ("infolist", "namelist"):
            return ["member"]
        if name == "open":
            s = Stream("zip", self.f.plain, "member", self.fs)
            self.fs.opened.append((self.name, s))
            return s
        if name == "read":
            return self.f.plain
        if name == "close":
            return None
        raise Undecided(f"ZipFile.{name}")


class PathV(AObj):
    """a pathlib path"""

    def __init__(self, fs, s):
        self.fs, self.p = fs, P(str(s))

    def __hash__(self):
        return hash(self.p)

    def key(self):
        return ("path", str(self.p))

    def __str__(self):
        return str(self.p)

    def __format__(self, spec):
        return str(self.p)

    __repr__ = __str__

    def a_truth(self, m):
        return True

    def a_conv(self, m, name):
        if name == "str":
            return str(self.p)
        if name == "repr":
            return repr(self.p)
        return NotImplemented

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n in ("pathlib.Path", "pathlib.PurePath",
                         "pathlib.PosixPath", "os.PathLike", "object")
                   for n in names)

    def mk(self, x):
        return PathV(self.fs, x)

    def a_attr(self, m, name):
        if name in ("name", "stem", "suffix", "anchor", "root", "drive"):
            return getattr(self.p, name)
        if name == "suffixes":
            return list(self.p.suffixes)
        if name == "parts":
            return tuple(self.p.parts)
        if name == "parent":
            return self.mk(self.p.parent)
        if name == "parents":
            return [self.mk(x) for x in self.p.parents]
        if name in ("read", "seek"):
            raise AExc("AttributeError")
        return NotImplemented

    def a_bin(self, m, op, other, rev):
        if op == "/" and isinstance(other, (str, PathV)):
            o = other.p if isinstance(other, PathV) else other
            return self.mk(P(o) / self.p if rev else self.p / o)
        if isinstance(other, str):
            raise AExc("TypeError")
        return NotImplemented

    def a_cmp(self, m, op, other, rev):
        if op in ("==", "!="):
            return (isinstance(other, PathV) and other.p == self.p) is (
                op == "==")
        return NotImplemented

    def a_method(self, m, name, args, kw, node):
        fs = self.fs
        a = [x.p if isinstance(x, PathV) else x for x in args]
        if name == "exists":
            return fs.isfile(self.p) or fs.isdir(self.p)
        if name == "is_file":
            return fs.isfile(self.p)
        if name == "is_dir":
            return fs.isdir(self.p)
        if name == "iterdir":
            if not fs.isdir(self.p):
                raise AExc("FileNotFoundError")
            return [self.mk(self.p / n) for n in fs.listdir(self.p)]
        if name in ("glob", "rglob") and isinstance(a[0], str):
            if name == "rglob" or "/" in a[0] or "**" in a[0]:
                raise Undecided("glob")
            return [self.mk(self.p / n) for n in fs.listdir(self.p)
                    if fnmatch.fnmatchcase(n, a[0])]
        if name in ("absolute", "resolve", "expanduser"):
            return self.mk(P(CWD) / self.p if name != "expanduser"
                           else self.p)
        if name in ("with_suffix", "with_name", "with_stem", "joinpath",
                    "relative_to", "match", "is_relative_to",
                    "is_absolute", "as_posix", "__str__", "__fspath__"):
            try:
                r = getattr(self.p, name)(*a)
            except ValueError:
                raise AExc("ValueError")
            return self.mk(r) if isinstance(r, P) else r
        if name == "open":
            return fs.open(m, self.p, *args, **kw)
        if name in ("read_text", "read_bytes"):
            s = fs.open(m, self.p, "r" if name == "read_text" else "rb",
                        **kw)
            return s.data
        if name == "stat":
            return Stat(len(fs.get(m, self.p).raw))
        raise Undecided(f"Path.{name}")


class Stat(AObj):
    def __init__(self, size):
        self.size = size

    def a_attr(self, m, name):
        return self.size if name == "st_size" else NotImplemented


def decode(data, enc=None, errors=None):
    try:
        return data.decode(enc or "utf-8", errors or "strict")
    except UnicodeDecodeError:
        raise AExc("UnicodeDecodeError")
    except LookupError:
        raise AExc("LookupError")


def universal(text, newline):
    if newline is None:
        return text.replace("\r\n", "\n").replace("\r", "\n")
    return text


class FS:
    """files: {absolute path: File}"""

    def __init__(self, files):
        self.files = {str(P(CWD) / k): v for k, v in files.items()}
        self.opened = []        # (path, stream)

    def norm(self, p):
        if isinstance(p, PathV):
            p = p.p
        if isinstance(p, bytes) or isinstance(p, AObj) or not isinstance(
                p, (str, P)):
            return None
        return posixpath.normpath(str(P(CWD) / p))

    def isfile(self, p):
        return self.norm(p) in self.files

    def isdir(self, p):
        n = self.norm(p)
        return n == "/" or n == CWD or any(f.startswith(n + "/")
                                           for f in self.files)

    def listdir(self, p):
        n = self.norm(p).rstrip("/") + "/"
        return list(dict.fromkeys(f[len(n):].split("/")[0]
                                  for f in self.files if f.startswith(n)))

    def get(self, m, p):
        n = self.norm(p)
        if n is None:
            if p is None or isinstance(p, (int, float, list, tuple, dict)):
                raise AExc("TypeError")
            raise Undecided("opened path")
        if n not in self.files:
            raise AExc("IsADirectoryError" if self.isdir(n)
                       else "FileNotFoundError")
        return self.files[n]

    def open(self, m, p, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, *a, **kw):
        f = self.get(m, p)
        if not isinstance(mode, str):
            raise Undecided("open mode")
        if any(c in mode for c in "wax+"):
            raise Undecided("opened for writing")
        raw = Stream("raw", f.raw, self.norm(p), self)
        self.opened.append((self.norm(p), raw))
        if "b" in mode:
            return raw
        return self.wrap(raw, encoding, errors, newline)

    def wrap(self, s, encoding=None, errors=None, newline=None):
        if not isinstance(s.data, bytes):
            raise AExc("TypeError")
        t = Stream("text", universal(decode(s.data[s.pos:], encoding,
                                            errors), newline),
                   s.name, self, s)
        return t

    def packed(self, m, kind, p, mode="rb", *a, **kw):
        if isinstance(p, Stream):
            if p.kind == "raw" and p.name in self.files:
                f = self.files[p.name]
            else:
                raise Undecided("packed stream in a stream")
        else:
            f = self.get(m, p)
        fam = "gzip" if kind == "igzip" else kind
        if f.packed != fam:
            # read errors come with the first read, ZipFile's at once
            raise AExc("zipfile.BadZipFile" if kind == "zip" else "OSError")
        if kind == "zip":
            return Zip(self, self.norm(p), f)
        s = Stream(kind, f.plain, self.norm(p), self)
        self.opened.append((self.norm(p), s))
        if isinstance(mode, str) and "t" in mode:
            return self.wrap(s, kw.get("encoding"), kw.get("errors"),
                             kw.get("newline"))
        return s


class Names(list):
    """parameter names, and which of them are optional"""
    optional = frozenset()


def names_of(f):
    if isinstance(f, Fn):
        return f.params()
    return None


def optional_of(f):
    return f.optional() if isinstance(f, Fn) else set()


class AnyPath(PathV):
    """the path of a file whose name is not known, but whose contents are"""

    def a_isinstance(self, m, names):
        if names is None:
            return None
        return any(n in ("str", "object") for n in names)

    def a_cmp(self, m, op, other, rev):
        if op in ("in", "not in", "==", "!="):
            return Cond((op.split()[-1], str(other)), not op.startswith(
                ("not", "!")), (self,))
        return NotImplemented

    def a_attr(self, m, name):
        return NotImplemented

    def a_method(self, m, name, args, kw, node):
        return Top(what=name)


class FSModel(Model):
    """file operations over a virtual file system"""

    def __init__(self, prog, fs):
        self.p, self.fs = prog, fs

    def global_value(self, m, module, name):
        if module is None and name in ("os.SEEK_SET", "io.SEEK_SET"):
            return 0
        if module is None and name in ("os.SEEK_CUR", "io.SEEK_CUR"):
            return 1
        if module is None and name in ("os.SEEK_END", "io.SEEK_END"):
            return 2
        if module is None and name in ("os.sep", "os.path.sep"):
            return "/"
        return NotImplemented

    def func_call(self, m, func, args, kw, node, me):
        """the library's own argument filtering, from the signatures the
        analysis knows"""
        q = func.qual
        if q == "pdr.func.filterkwargs" and len(args) == 2:
            n = names_of(args[0])
            if n is None:
                return dict(args[1])
            return {k: v for k, v in args[1].items() if k in n}
        if q == "pdr.func.sig_union":
            out = Names()
            need = set()
            for f in args:
                n = names_of(f)
                if n is None:
                    return None
                out += [x for x in n if x not in out]
                need |= set(n) - set(optional_of(f))
            out.optional = frozenset(set(out) - need)
            return out
        if q in ("pdr.func.get_argnames", "pdr.func.get_all_argnames"):
            some = kw.get("nonoptional") is True
            return {x for f in args for x in names_of(f) or ()
                    if not (some and x in optional_of(f))}
        return NotImplemented

    def exit(self, m, obj, exc, node):
        if isinstance(obj, Stream):
            obj.close()
        return False

    def ext_call(self, m, name, args, kw, node):
        fs = self.fs
        a = args[0] if args else None
        if name in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath",
                    "pathlib.PurePosixPath"):
            parts = [x.p if isinstance(x, PathV) else x for x in args]
            if any(not isinstance(x, (str, P)) for x in parts):
                if any(isinstance(x, AObj) for x in parts):
                    raise Undecided("path")
                raise AExc("TypeError")
            return PathV(fs, P(*parts))
        if name in ("builtins.open", "io.open"):
            return fs.open(m, *args, **kw)
        if name in ("gzip.GzipFile", "gzip.open", "isal.igzip.GzipFile",
                    "isal.igzip.IGzipFile", "isal.igzip.open",
                    "bz2.BZ2File", "bz2.open", "lzma.open",
                    "lzma.LZMAFile", "zipfile.ZipFile"):
            kind = {"g": "gzip", "i": "igzip", "b": "bz2", "l": "lzma",
                    "z": "zip"}[name[0]]
            kw = dict(kw)
            p = args[0] if args else kw.pop("filename", None)
            if p is None:
                p = kw.pop("fileobj", kw.pop("file", None))
            return fs.packed(m, kind, p, *args[1:], **kw)
        if name == "io.BytesIO":
            d = a if args else kw.get("initial_bytes", b"")
            if isinstance(d, AObj):
                raise Undecided("BytesIO contents")
            return Stream("mem", bytes(d), None, fs)
        if name == "io.StringIO":
            d = a if args else kw.get("initial_value", "")
            if isinstance(d, AObj):
                raise Undecided("StringIO contents")
            return Stream("smem", d or "", None, fs)
        if name == "io.TextIOWrapper" and isinstance(a, Stream):
            n = dict(zip(("encoding", "errors", "newline"), args[1:]))
            n.update({k: v for k, v in kw.items() if k in (
                "encoding", "errors", "newline")})
            return fs.wrap(a, **n)
        if name == "io.BufferedReader" and isinstance(a, Stream):
            return a
        if name == "codecs.open":
            s = fs.open(m, a, "rb")
            return fs.wrap(s, *args[2:4], newline="") if args[1:] else s
        if name == "builtins.next" and isinstance(a, Stream):
            x = a.line(m)
            if not x:
                if len(args) > 1:
                    return args[1]
                raise AExc("StopIteration")
            return x
        if name == "builtins.memoryview" and isinstance(a, bytes):
            return a
        if name == "dustgoggles.structures.listify":
            if isinstance(a, (list, tuple, set, dict)):
                return list(a)
            return [a]
        if name in ("cytoolz.curry", "toolz.curry"):
            return Partial(a, list(args[1:]), kw)
        if name.startswith("warnings.warn"):
            m.event("warn", args[0] if args else "")
            return None
        if name.startswith("os."):
            return self.os(m, name, args, kw)
        if name == "glob.glob" and isinstance(a, str):
            d, pat = posixpath.split(a)
            return [posixpath.join(d, n) for n in fs.listdir(d or ".")
                    if fnmatch.fnmatchcase(n, pat)]
        return NotImplemented

    def os(self, m, name, args, kw):
        fs = self.fs
        a = [str(x.p) if isinstance(x, PathV) else x for x in args]
        if name == "os.path.exists":
            return fs.isfile(a[0]) or fs.isdir(a[0])
        if name == "os.path.isfile":
            return fs.isfile(a[0])
        if name == "os.path.isdir":
            return fs.isdir(a[0])
        if name in ("os.path.abspath", "os.path.realpath"):
            return fs.norm(a[0])
        if name in ("os.listdir",):
            return fs.listdir(a[0] if a else ".")
        if name in ("os.path.getsize",):
            return len(fs.get(m, a[0]).raw)
        if name == "os.stat":
            return Stat(len(fs.get(m, a[0]).raw))
        if name in ("os.fspath",):
            return a[0]
        if name.startswith("os.path.") and all(isinstance(x, str)
                                               for x in a):
            f = getattr(posixpath, name[8:], None)
            if callable(f) and name[8:] in (
                    "join", "basename", "dirname", "split", "splitext",
                    "normpath", "isabs", "normcase", "commonpath"):
                return m.native(f, *a)
        return NotImplemented
