"""Snapshots of file trees, and file system operations that fail at a chosen point, for the harnesses of what writes files."""
import shutil
from pathlib import Path


def snap(root):
    """relative path -> content, None for directories"""
    root = Path(root)
    return {str(p.relative_to(root)): None if p.is_dir() else p.read_bytes() for p in sorted(root.rglob('*'))}


def put(root, files):
    for rel, text in files.items():
        p = Path(root, rel)
        p.parent.mkdir(parents=True, exist_ok=True)
        if text is None:
            p.mkdir(exist_ok=True)
        else:
            p.write_bytes(text if isinstance(text, bytes) else text.encode())


class Fault(OSError):
    pass


class Faults:
    """counts the operations on files; the one numbered `at` fails, before having done anything or half way"""

    def __init__(self, S, at, half):
        self.S, self.at, self.half, self.n, self.on, self.failed = S, at, half, 0, True, None

    def hit(self, what):
        if not self.on or self.failed:
            return False
        self.n += 1
        if self.at == self.n:
            self.failed = what
            return True
        return False

    def wrap(self, owner, name, partial=None):
        """the function fails when it is its turn; partial(*args) is what it has done by then"""
        real = getattr(owner, name)

        def f(*a, **k):
            if self.hit(name):
                if self.half and partial:
                    partial(*a, **k)
                raise Fault(28, 'no space left on device')
            return real(*a, **k)
        self.S.patch(owner, name, f)

    def install(self):
        half_copy = lambda s, t, **k: Path(t).is_dir() or (Path(t).parent.is_dir() and Path(t).write_bytes(b'ha'))
        self.wrap(shutil, 'copy', half_copy)
        self.wrap(shutil, 'move')
        self.wrap(Path, 'mkdir')
        self.wrap(Path, 'write_text', lambda p, *a, **k: open(p, 'w').write('ha'))
