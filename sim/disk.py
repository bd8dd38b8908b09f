"""The simulated disk: every file operation below one scratch directory passes through here (libsimdisk.so, LD_PRELOAD).

The real directory plays the page cache.  A fault plan names the n-th disk call of an operation and what happens there; from a
crash on nothing changes the disk any more (the dying process only sees errors); a power loss additionally drops data that was
not yet synced and a suffix of the renames/creations/removals.
"""
import ctypes
import errno
import os
import re

from .kernel import HarnessError

OPEN, READ, WRITE, CLOSE, RENAME, UNLINK, TRUNC, FSYNC, STAT, MKDIR, RMDIR, LINK = range(1, 13)
NAMES = {OPEN: "open", READ: "read", WRITE: "write", CLOSE: "close", RENAME: "rename", UNLINK: "unlink", TRUNC: "truncate",
         FSYNC: "fsync", STAT: "stat", MKDIR: "mkdir", RMDIR: "rmdir", LINK: "link"}
TORN = 1 << 40
HOOK = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_long)
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def library():
    lib = ctypes.CDLL(None)
    try:
        lib.simdisk_present
    except AttributeError:
        raise HarnessError("libsimdisk.so is not preloaded")
    return lib


class SimDisk:
    held = {}

    def __init__(self, root, ctx):
        self.root, self.ctx = root, ctx
        self.lib = library()
        self.busy = False
        self.names = {}
        self.watch = None          # called at every disk call (a reader in another process)
        self.yield_to = None       # called at every disk call (scheduling point for threads)
        self.reset()
        self._hook = HOOK(self._call)
        self.lib.simdisk_set(root.encode(), self._hook)

    def release(self):
        for fd in self.held.values():
            os.close(fd)
        self.held = {}             # inode -> descriptor of files that lost their name (keeps their content and inode number)

    def stop(self):
        self.busy = True
        self.release()
        self.lib.simdisk_set(None, ctypes.cast(None, HOOK))

    # --- per operation
    def reset(self, fault=None):
        self.fault = dict(fault) if fault else None
        self.calls = 0
        self.frozen = False
        self.full = False
        self.fired = None
        self.log = []
        self.meta = []             # [kind, name, name2, inode] in order, for power loss
        self.touched = {}          # inode -> synced bytes or None (nothing synced)
        was, self.busy = self.busy, True
        self.release()
        self.start = self.snapshot()
        self.inode_start = {}
        for n in self.start:
            self.inode_start[n] = os.stat(os.path.join(self.root, n)).st_ino
        self.busy = was

    def snapshot(self):
        """name -> bytes of every regular file directly below the root (symlinks not followed)"""
        was, self.busy = self.busy, True
        try:
            out = {}
            for d, _, fs in os.walk(self.root):
                for f in fs:
                    p = os.path.join(d, f)
                    if os.path.islink(p) or not os.path.isfile(p):
                        continue
                    with open(p, "rb") as fp:
                        out[os.path.relpath(p, self.root)] = fp.read()
            return out
        finally:
            self.busy = was

    def label(self, path):
        """file names without the random part"""
        n = os.path.relpath(path, self.root)
        if re.search(r"\.[A-Za-z0-9_]{8}\.tmp$|^tmp[a-z0-9_]{8}", n) or n not in self.known:
            if n not in self.names:
                self.names[n] = "temp%d" % len(self.names)
            return self.names[n]
        return n

    known = ()

    def _call(self, op, path, path2, fd, n):
        if self.busy:
            return 0
        self.busy = True
        try:
            return self._decide(op, os.fsdecode(path) if path else "", os.fsdecode(path2) if path2 else "", fd, n)
        except BaseException as e:       # must not get lost in the C callback
            self.internal_error = e
            return 0
        finally:
            self.busy = False

    internal_error = None

    def check_internal(self):
        if self.internal_error is not None:
            e, self.internal_error = self.internal_error, None
            raise e

    def _decide(self, op, path, path2, fd, n):
        if self.watch is not None and not self.frozen:
            self.watch()
        if self.yield_to is not None:
            self.busy = False
            try:
                self.yield_to()
            finally:
                self.busy = True
        self.calls += 1
        label = self.label(path)
        self.log.append((NAMES[op], label))
        self.ctx.ev("disk", NAMES[op], label, self.label(path2) if path2 else "", n if op in (WRITE,) else 0)
        if self.frozen:
            return 0 if op in (STAT,) else -errno.EIO
        if self.full and ((op == OPEN and n & os.O_CREAT and not os.path.lexists(path)) or op in (WRITE, MKDIR)):
            return -errno.ENOSPC
        r = self._fault(op, path, fd, n)
        if r is not None and r < 0:
            return r
        self._account(op, path, path2, fd, n)
        return r or 0

    def _fault(self, op, path, fd, n):
        f = self.fault
        if f is None or self.fired is not None or self.calls < f["at"]:
            return None
        kind = f["kind"]
        if kind in ("crash", "power"):
            if op == WRITE and f.get("torn"):
                k = int(f["frac"] * n)
                self._fire(kind + "+torn write", op)
                self.frozen = True
                if k > 0:
                    self._account(op, path, "", fd, n)
                    return TORN | k if k else -errno.EIO
                return -errno.EIO
            self._fire(kind, op)
            self.frozen = True
            return -errno.EIO
        if op == STAT:
            return None
        if kind in ("short", "torn"):
            if op == WRITE or (op == READ and kind == "short"):
                k = max(1, int(f["frac"] * n)) if kind == "short" else int(f["frac"] * n)
                self._fire(kind + " " + NAMES[op], op)
                if kind == "short":
                    return k
                self._account(op, path, "", fd, n)
                return TORN | k
            return None
        if kind == "full":
            if op == WRITE:
                self._fire("disk full", op)
                self.full = True
                k = int(f["frac"] * n)
                if k > 0:
                    return k           # the part that still fits; the rest fails
                return -errno.ENOSPC
            if op == OPEN and n & os.O_CREAT and not os.path.lexists(path):
                self._fire("disk full", op)
                self.full = True
                return -errno.ENOSPC
            return None
        if f.get("only") and NAMES[op] not in f["only"]:
            return None
        self._fire("%s at %s" % (kind, NAMES[op]), op)
        return -getattr(errno, kind)

    def _fire(self, what, op):
        self.fired = what
        self.ctx.fault(what)

    def _account(self, op, path, path2, fd, n):
        if op == OPEN and n & os.O_TRUNC and os.path.exists(path):
            self.touched.setdefault(os.stat(path).st_ino, self._old_content(path))
            self.meta.append(["trunc", path, None, None])
        elif op == OPEN and n & os.O_CREAT and not os.path.lexists(path):
            self.meta.append(["create", path, None, None])
        elif op in (WRITE, TRUNC):
            try:
                ino = os.fstat(fd).st_ino if fd >= 0 else os.stat(path).st_ino
            except OSError:
                return
            self.touched.setdefault(ino, self._old_content(path))
        elif op == FSYNC:
            ino = os.fstat(fd).st_ino
            if not os.path.isdir(path):
                with open("/proc/self/fd/%d" % fd, "rb") as fp:
                    self.touched[ino] = fp.read()
        elif op == RENAME:
            self._leave(path2)
            self.meta.append(["rename", path, path2, self._created(path)])
        elif op == UNLINK:
            self._leave(path)
            self.meta.append(["unlink", path, None, None])
        elif op == LINK:
            self.meta.append(["link", path, path2, None])

    def _created(self, path):
        """the inode of the path; notes it at its creation"""
        try:
            ino = os.lstat(path).st_ino
        except OSError:
            return None
        for m in reversed(self.meta):
            if m[0] == "create" and m[1] == path and m[3] is None:
                m[3] = ino
                break
        return ino

    def _leave(self, path):
        """the path's file is about to lose this name"""
        ino = self._created(path)
        if ino is not None and ino not in self.held and os.path.isfile(path) and not os.path.islink(path):
            self.held[ino] = os.open(path, os.O_RDONLY)

    def _old_content(self, path):
        return self.start.get(os.path.relpath(path, self.root), b"")

    # --- power loss
    def power_loss(self, keep_meta, keep_data):
        """What is on the disk after the machine lost power now.

        keep_meta in [0, 1]: which prefix of the creations/renames/removals reached the disk;
        keep_data: "old", "none", "half", "zeros", "all": what became of written but unsynced data."""
        was, self.busy = self.busy, True
        try:
            final = self.snapshot()
            inode_final = {n: os.stat(os.path.join(self.root, n)).st_ino for n in final}
            content = {}
            for n, b in final.items():
                content.setdefault(inode_final[n], b)
            for ino, fd in self.held.items():
                if ino not in content:
                    with open("/proc/self/fd/%d" % fd, "rb") as fp:
                        content[ino] = fp.read()
            for n, b in self.start.items():
                content.setdefault(self.inode_start[n], b)
            rel = lambda p: os.path.relpath(p, self.root)
            k = int(round(keep_meta * len(self.meta)))
            names = dict(self.inode_start)
            for kind, a, b, ino in self.meta[:k]:
                if kind == "create":
                    names[rel(a)] = ino if ino is not None else inode_final.get(rel(a))
                elif kind == "rename":
                    if rel(a) in names:
                        names[rel(b)] = names.pop(rel(a))
                elif kind == "unlink":
                    names.pop(rel(a), None)
            out = {}
            for n, ino in names.items():
                if ino is None:
                    out[n] = b""
                    continue
                cur = content.get(ino, b"")
                if ino in self.touched and self.touched[ino] != cur:
                    base = self.touched[ino] or b""
                    cur = dict(old=base, none=b"", half=cur[:len(cur) // 2], zeros=b"\0" * len(cur), all=cur)[keep_data]
                out[n] = cur
            for n in list(final):
                os.remove(os.path.join(self.root, n))
            for n, b in out.items():
                p = os.path.join(self.root, n)
                with open(p, "wb") as fp:
                    fp.write(b)
            self.ctx.ev("power loss", k, len(self.meta), keep_data)
        finally:
            self.busy = was


KINDS = ["EIO", "EIO", "ENOSPC", "EACCES", "short", "torn", "full", "full", "crash", "crash", "power", "power"]


def gen_fault(rng, most=14, kinds=KINDS):
    k = rng.choice(kinds)
    f = dict(at=rng.randint(1, most), kind=k, frac=rng.choice([0.0, 0.3, 0.5, 0.9, round(rng.random(), 3)]))
    if k in ("crash", "power"):
        f["torn"] = rng.random() < 0.6
    if k == "power":
        f["keep_meta"] = rng.choice([0.0, 0.5, 1.0, 1.0])
        f["keep_data"] = rng.choice(["old", "none", "half", "zeros", "all"])
    return f
