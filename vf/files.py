"""Monitor of file effects: an interpreter audit hook that records every path
opened for writing, created, renamed or removed, and snapshots of folders."""
import hashlib
import os
import sys

_rec = None
_installed = False
_W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
    if _rec is None:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        w = any(c in (mode or '') for c in 'wax+') or \
            (mode is None and flags and flags & _W)
        if w:
            _rec.append(('write', os.path.abspath(os.fsdecode(path))))
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate',
                   'os.chmod', 'os.utime'):
        if not isinstance(args[0], int):
            _rec.append((event, os.path.abspath(os.fsdecode(args[0]))))
    elif event in ('os.rename', 'os.link', 'os.symlink'):
        for p in args[:2]:
            if not isinstance(p, int):
                _rec.append((event, os.path.abspath(os.fsdecode(p))))


class Recorder:
    """with Recorder() as r: ... ; r.paths: affected paths"""

    def __enter__(self):
        global _rec, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        self.events = _rec = []
        return self

    def __exit__(self, *a):
        global _rec
        _rec = None

    def affected(self, ignore=()):
        ig = [os.environ.get('MPLCONFIGDIR', '/nonexistent'), '/dev',
              '/proc'] + list(ignore)
        return [(e, p) for e, p in self.events
                if not any(p == i or p.startswith(i.rstrip('/') + '/')
                           for i in ig) and '__pycache__' not in p]


def snapshot(folder):
    """Relative path -> hash of contents"""
    d = {}
    for root, dirs, names in os.walk(folder):
        for n in dirs:
            d[os.path.relpath(os.path.join(root, n), folder) + '/'] = 'dir'
        for n in names:
            p = os.path.join(root, n)
            with open(p, 'rb') as f:
                d[os.path.relpath(p, folder)] = hashlib.sha256(
                    f.read()).hexdigest()
    return d


def changes(a, b):
    """Paths created, changed or removed"""
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
