"""A virtual directory tree whose entries may be symbolic.

Symbolic runs: os.stat/lstat/scandir/listdir answer for paths below the virtual root from solver-decided node
kinds (0 missing, 1 file, 2 directory), so os.path, glob and pathlib of the real code run unchanged on top.
Concrete replays: the tree is written into a fresh temporary directory (real files); only the listing order and
injected faults are imposed on os.scandir/os.listdir, since both are the operating system's choice.
"""
import errno, os, re, shutil, stat as st, tempfile
import z3
from . import symx
from .symx import *

NUMBER = re.compile(symx.TOKEN_RE)
_os = {n: getattr(os, n) for n in ("stat", "lstat", "scandir", "listdir", "access")}


class Node:
    def __init__(self, name, kind, link, write, fault):
        self.name, self.kind, self.link, self.write, self.fault = name, kind, link, write, fault
        self.kids = {}


class Entry:
    def __init__(self, fs, node, path):
        self.fs, self.node, self.path, self.name = fs, node, path, node.name

    def is_symlink(self): return bool(self.node.link)
    def is_dir(self, *, follow_symlinks=True): return (follow_symlinks or not self.node.link) and self.fs.kind(self.node) == 2
    def is_file(self, *, follow_symlinks=True): return (follow_symlinks or not self.node.link) and self.fs.kind(self.node) == 1
    def stat(self, *, follow_symlinks=True): return os.stat(self.path, follow_symlinks=follow_symlinks)
    def inode(self): return 1
    def __fspath__(self): return self.path


class Listing:
    def __init__(self, items): self.it = iter(items)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass


class VFS:
    def __init__(self, cx, name="vfs"):
        self.cx = cx
        self.concrete = cx.concrete
        self.root = tempfile.mkdtemp(prefix="vfs") if cx.concrete else f"/nonexistent-{name}"
        self.top = Node("", 2, False, None, None)
        self.n = 0
        self.order = {}

    def path(self, rel): return os.path.join(self.root, rel) if rel else self.root

    def add(self, rel, kind=1, link=False, write=None, fault=None):
        """kind: 0/1/2 or symbolic; write(path): content in concrete replays; fault: exception raised by listing"""
        parts = rel.split("/")
        d = self.top
        for p in parts[:-1]:
            d = d.kids.setdefault(p, Node(p, 2, False, None, None))
        n = d.kids.get(parts[-1])
        if n is None:
            d.kids[parts[-1]] = n = Node(parts[-1], kind, link, write, fault)
        else:
            n.kind, n.link, n.write, n.fault = kind, link, write, fault
        return self.path(rel)

    def kind(self, node):
        k = node.kind
        return self.cx.concretize(z(k)) if is_sym(k) else int(k)

    # ---------------------------------------------------------------- symbolic side
    def _rel(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(p)
        if p == self.root:
            return []
        if p.startswith(self.root + "/"):
            return p[len(self.root) + 1:].split("/")
        return None

    def _find(self, path):
        """node of a path, None if it does not exist"""
        d = self.top
        for k, p in enumerate(self._rel(path)):
            if self.kind(d) != 2:
                return None
            d = d.kids.get(p) or self._same_name(d, p)
            if d is None:
                return None
        return d

    def _same_name(self, d, p):
        """entry whose name is the same text once the symbolic numbers in it are known"""
        if self.concrete:
            return None
        parts = NUMBER.split(p)
        for q, n in d.kids.items():
            if symx.TOKEN not in p and symx.TOKEN not in q:
                continue
            other = NUMBER.split(q)
            if len(other) != len(parts) or other[::2] != parts[::2]:
                continue
            cond = z3.simplify(z3.And(*[self._number(a) == self._number(b) for a, b in zip(parts[1::2], other[1::2]) if a != b]))
            if z3.is_false(cond):
                continue
            if z3.is_true(cond) or bool(symx.wrap(cond)):
                return n
        return None

    def _number(self, text):
        t = self.cx.untoken(text)
        return z3.IntVal(int(text)) if t is None else z(t)

    def _stat(self, path, follow=True):
        n = self._find(path)
        if n is None or (self.kind(n) == 0 and not (n.link and not follow)):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        mode = st.S_IFLNK if n.link and not follow else (st.S_IFDIR if self.kind(n) == 2 else st.S_IFREG)
        return os.stat_result((mode | 0o755, id(n) & 0xffff, 1, 1, 0, 0, 1, 0, 0, 0))

    def _list(self, path):
        n = self._find(path)
        if n is None or self.kind(n) == 0:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if self.kind(n) != 2:
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        if n.fault is not None:
            f = n.fault() if callable(n.fault) else n.fault
            if f is not None:
                raise f
        items = [c for _, c in sorted(n.kids.items()) if c.link or self.kind(c) != 0]
        return self._ordered(n, items)

    def _ordered(self, node, items):
        """the listing order is the operating system's choice: one decision per directory"""
        if len(items) > 1:
            key = id(node)
            if key not in self.order:
                self.order[key] = self.cx.choose(f"listing_order_{len(self.order)}", 0, min(len(items), 3) - 1)
            k = self.order[key]
            items = items[k:] + items[:k]
            if k:
                items = items[::-1]
        return items

    # ---------------------------------------------------------------- patching
    def __enter__(self):
        if self.concrete:
            self._write(self.top, self.root)
        vf = self

        def f_stat(path, *, dir_fd=None, follow_symlinks=True):
            if vf.concrete or isinstance(path, int) or vf._rel(path) is None:
                return _os["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
            return vf._stat(path, follow_symlinks)

        def f_lstat(path, *, dir_fd=None):
            if vf.concrete or vf._rel(path) is None:
                return _os["lstat"](path, dir_fd=dir_fd)
            return vf._stat(path, False)

        def f_access(path, mode, **k):
            if vf.concrete or isinstance(path, int) or vf._rel(path) is None:
                return _os["access"](path, mode, **k)
            n = vf._find(path)
            return n is not None and vf.kind(n) != 0

        def f_scandir(path="."):
            if isinstance(path, int) or vf._rel(path) is None:
                return _os["scandir"](path)
            if not vf.concrete:
                base = os.fspath(path)
                return Listing([Entry(vf, c, os.path.join(base, c.name)) for c in vf._list(path)])
            n = vf._find(path)
            if n is not None and n.fault is not None:
                f = n.fault() if callable(n.fault) else n.fault
                if f is not None:
                    raise f
            with _os["scandir"](path) as it:
                items = sorted(it, key=lambda e: e.name)
            return Listing(vf._ordered(n, items) if n is not None else items)

        def f_listdir(path="."):
            if isinstance(path, int) or vf._rel(path) is None:
                return _os["listdir"](path)
            return [e.name for e in f_scandir(path)]
        self.p = patched((os, "stat", f_stat), (os, "lstat", f_lstat), (os, "access", f_access), (os, "scandir", f_scandir), (os, "listdir", f_listdir))
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        self.p.__exit__()
        if self.concrete:
            shutil.rmtree(self.root, ignore_errors=True)
            shutil.rmtree(self.root + ".targets", ignore_errors=True)

    def _write(self, node, path):
        for name, c in node.kids.items():
            p = os.path.join(path, name)
            k = self.kind(c)
            real = p
            if c.link:
                os.makedirs(self.root + ".targets", exist_ok=True)
                real = os.path.join(self.root + ".targets", f"{self.n}")
                self.n += 1
                os.symlink(real, p)
            if k == 2:
                os.makedirs(real, exist_ok=True)
                if not c.link:
                    self._write(c, real)
            elif k == 1:
                with open(real, "wb"):
                    pass
                if c.write:
                    c.write(real)
