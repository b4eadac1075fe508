"""Recognise operations that change the filesystem."""
from __future__ import annotations

import ast

from .flow import AV

EXT = {
    "os.remove", "os.unlink", "os.rename", "os.renames", "os.replace",
    "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.truncate",
    "os.ftruncate", "os.chmod", "os.chown", "os.link", "os.symlink",
    "os.utime", "os.write", "os.pwrite", "os.mkfifo", "os.mknod",
    "numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed",
    "numpy.lib.format.open_memmap", "json.dump", "pickle.dump",
    "marshal.dump", "csv.writer_", "joblib.dump", "pandas.to_pickle",
    "pandas.ExcelWriter", "pandas.HDFStore", "astropy.io.fits.writeto",
    "astropy.io.fits.append", "astropy.io.fits.update",
    "astropy.io.fits.setval", "astropy.io.fits.delval",
    "logging.FileHandler", "logging.basicConfig_", "shelve.open", "dbm.open",
    "sqlite3.connect", "urllib.request.urlretrieve", "fileinput.input",
    "matplotlib.pyplot.savefig", "imageio.imwrite", "cv2.imwrite",
    "tifffile.imwrite",
}
PREFIX = ("shutil.copy", "shutil.move", "shutil.rmtree", "shutil.make_arch",
          "shutil.unpack", "shutil.chown", "tempfile.")
TEMP_OK = {"tempfile.SpooledTemporaryFile", "tempfile.gettempdir"}
PATH_METHODS = {"write_text", "write_bytes", "mkdir", "touch", "unlink",
                "rmdir", "rename", "replace", "chmod", "symlink_to",
                "hardlink_to", "link_to", "lchmod", "copy", "move",
                "copy_into", "move_into"}
SURE_METHODS = {"write_text", "write_bytes", "touch", "unlink", "rmdir",
                "symlink_to", "hardlink_to", "mkdir",
                "to_csv", "to_pickle", "to_parquet", "to_excel", "to_hdf",
                "to_feather", "to_sql", "to_stata", "to_orc", "tofile",
                "writeto", "savefig", "extractall", "to_file",
                "writestr", "makedirs"}
MAYBE_METHODS = {"save", "to_json", "to_html", "to_latex", "to_xml", "dump"}
NULLABLE = {"to_csv", "to_json", "to_html", "to_latex", "to_xml",
            "to_parquet", "to_pickle"}
WRITE_FLAGS = ("O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND",
               "O_EXCL")


def modes(v):
    """possible open modes of an abstract value -> set or None"""
    if v is None:
        return {"r"}
    return v.strs()


def writing(mode):
    return any(c in mode for c in "wax+")


def ext_write(name, args, kwargs, node):
    """-> description of the write, None (no write) or '?' (undecided)"""
    last = name.split(".")[-1]
    if name in EXT:
        return f"`{name}` changes the filesystem"
    if name.startswith(PREFIX) and name not in TEMP_OK:
        return f"`{name}` changes the filesystem"
    if name in ("builtins.open", "io.open", "gzip.open", "bz2.open",
                "lzma.open", "codecs.open", "gzip.GzipFile", "bz2.BZ2File",
                "zipfile.ZipFile", "tarfile.open", "isal.igzip.open",
                "isal.igzip.GzipFile", "isal.igzip.IGzipFile", "lzma.LZMAFile",
                "io.FileIO", "os.fdopen"):
        v = kwargs.get("mode")
        pos = 1
        if v is None and len(args) > pos:
            v = args[pos]
        m = modes(v)
        if m is None:
            return "?"
        if any(writing(x) for x in m):
            return f"`{last}` opens a file for writing"
        return None
    if name == "os.open":
        if node is None or not isinstance(node, ast.Call):
            return "?"
        fl = node.args[1] if len(node.args) > 1 else None
        t = ast.unparse(fl) if fl is not None else ""
        if any(w in t for w in WRITE_FLAGS):
            return "`os.open` opens a file for writing"
        return None if "O_RDONLY" in t else "?"
    if name == "numpy.memmap":
        v = kwargs.get("mode")
        if v is None and len(args) > 2:
            v = args[2]
        if v is None:
            return "`numpy.memmap` opens a file for writing (default mode)"
        m = modes(v)
        if m is None:
            return "?"
        if any(x in ("r+", "w+", "readwrite", "write") for x in m):
            return "`numpy.memmap` opens a file for writing"
        return None
    if name == "numpy.load":
        v = kwargs.get("mmap_mode")
        m = modes(v) if v is not None else set()
        if m and any(x in ("r+", "w+") for x in m):
            return "`numpy.load` maps a file for writing"
        return None
    if name == "astropy.io.fits.open":
        v = kwargs.get("mode")
        if v is None and len(args) > 1:
            v = args[1]
        if v is None:
            return None
        m = v.strs()
        if m is None:
            return "?"
        if m - {"readonly", "denywrite", "copyonwrite"}:
            return "`fits.open` opens a file for writing"
        return None
    return None


def method_write(recv, name, args, kwargs, is_path, own):
    """own: some class of the library defines this method"""
    if is_path:
        if name == "open":
            v = kwargs.get("mode") or (args[0] if args else None)
            m = modes(v)
            if m is None:
                return "?"
            return f"`.open` opens a file for writing" if any(
                writing(x) for x in m) else None
        if name in PATH_METHODS:
            return f"`.{name}` changes the filesystem"
        return None
    if own:
        return None
    if name in NULLABLE and not args and not (
            set(kwargs) & {"path_or_buf", "buf", "path", "**"}):
        return None
    if name in SURE_METHODS or name in MAYBE_METHODS:
        return f"`.{name}` writes a file"
    return None


def is_path(v: AV):
    return "%path" in v.insts
