"""What the functions outside the tree do to the file system and to processes."""
from facts import children

O_ACCMODE, O_CREAT, O_TRUNC, O_APPEND = 3, 0o100, 0o1000, 0o2000

DELETE = {"remove": [0], "unlink": [0], "rmdir": [0], "unlinkat": [1], "std::filesystem::remove": [0],
          "std::filesystem::remove_all": [0], "std::remove": [0]}
CREATE = {"rename": [0, 1], "std::rename": [0, 1], "renameat": [1, 3], "renameat2": [1, 3], "mkdir": [0], "mkdirat": [1],
          "creat": [0], "creat64": [0], "link": [1], "symlink": [1], "linkat": [3], "symlinkat": [2],
          "chmod": [0], "chown": [0], "lchown": [0], "utime": [0], "utimes": [0], "lutimes": [0],
          "utimensat": [1], "fchmodat": [1], "fchownat": [1], "truncate": [0], "truncate64": [0], "mknod": [0],
          "mkfifo": [0], "mkstemp": [0], "mkostemp": [0], "mkdtemp": [0], "setxattr": [0],
          "std::filesystem::rename": [0, 1], "std::filesystem::create_directory": [0],
          "std::filesystem::create_directories": [0], "std::filesystem::copy": [1],
          "std::filesystem::copy_file": [1], "std::filesystem::resize_file": [0],
          "std::filesystem::permissions": [0], "std::filesystem::create_symlink": [1],
          "std::filesystem::create_hard_link": [1], "std::filesystem::last_write_time": [0]}
EXTRACT = {"archive_read_extract", "archive_read_extract2", "archive_write_header",
           "archive_write_disk_new"}
EXEC = {"execl", "execv", "execvp", "execve", "execlp", "execle", "system", "popen", "posix_spawn",
        "posix_spawnp", "execvpe", "fexecve"}
FDMOD = {"ftruncate", "fchmod", "fchown", "futimens", "futimes", "ftruncate64"}
OFSTREAM = ("std::basic_ofstream<char>::basic_ofstream", "std::basic_ofstream<char>::open",
            "std::basic_filebuf<char>::open")
FSTREAM = ("std::basic_fstream<char>::basic_fstream", "std::basic_fstream<char>::open")


def const(fn, i):
    if not i:
        return None
    n = fn.ex[i]
    return n.get("v")


def strval(fn, i):
    n = fn.ex.get(i) or {}
    return n.get("s") if n.get("k") == "str" else None


def fs_effect(fn, n):
    """(kind, [argument node of each affected path]) of a call/ctor node, or None.
    kind: 'delete' | 'create' | 'extract' | 'write'"""
    if n["k"] not in ("call", "ctor"):
        return None
    name = n.get("fn")
    if not name or n.get("in"):
        return None
    a = n["a"]

    def at(ix):
        return [a[i] for i in ix if i < len(a)]
    if name in DELETE:
        if name == "std::remove" and len(a) != 1:
            return None
        return ("delete", at(DELETE[name]))
    if name in CREATE:
        return ("create", at(CREATE[name]))
    if name in EXTRACT:
        return ("extract", [])
    if name in ("open", "open64", "openat", "openat64"):
        o = 1 if name.startswith("openat") else 0
        f = const(fn, a[o + 1]) if len(a) > o + 1 else None
        if f is None or (f & O_ACCMODE) or (f & (O_CREAT | O_TRUNC)):
            return ("write", at([o]))
        return None
    if name in ("fopen", "fopen64", "freopen", "std::fopen", "freopen64", "fdopen"):
        if name == "fdopen":
            return None
        m = strval(fn, a[1]) if len(a) > 1 else None
        if m is None or any(c in m for c in "wa+"):
            return ("write", at([0]))
        return None
    if name in OFSTREAM or (name.startswith("std::basic_ofstream") and n["k"] == "ctor"):
        if n["k"] == "ctor" and not a:
            return None
        return ("write", at([0]))
    if name in FSTREAM:
        if n["k"] == "ctor" and not a:
            return None
        m = const(fn, a[1]) if len(a) > 1 else None
        if m is not None and not (m & (16 | 32 | 1)):      # out, trunc, app
            return None
        return ("write", at([0]))
    return None


def is_fs_name(name):
    return (name in DELETE or name in CREATE or name in EXTRACT or
            name in ("open", "open64", "openat", "fopen", "fopen64", "freopen", "std::fopen") or
            name in OFSTREAM or name in FSTREAM or name.startswith("std::basic_ofstream"))
