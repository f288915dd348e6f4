"""Wheels and installation targets for the harnesses of wheel installation."""
import csv
import hashlib
import importlib.util
import io
import zipfile
from base64 import urlsafe_b64encode
from pathlib import Path

from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.package_installation import PackageInstallationTarget
from pkm.api.versions.version import StandardVersion

NAME, DIST = 'My-Pkg', 'My_Pkg-1.0'
INFO = f'{DIST}.dist-info'
DATA = f'{DIST}.data'


def digest(content, algorithm='sha256'):
    return urlsafe_b64encode(getattr(hashlib, algorithm)(content).digest()).decode().rstrip('=')


class Env:
    interpreter_path = Path('/nowhere/bin/python')
    interpreter_version = StandardVersion((3, 9, 1))
    markers = {'python_version': '3.9'}
    markers_hash = 'm'

    class operating_platform:
        @staticmethod
        def has_windows_os():
            return False

    def __init__(self, path):
        self.path = path


def target_in(root):
    return PackageInstallationTarget(Env(root), **{
        'stdlib': f'{root}/lib/py', 'platstdlib': f'{root}/lib/py', 'platinclude': f'{root}/inc', 'include': f'{root}/inc',
        'purelib': f'{root}/lib/site', 'platlib': f'{root}/lib64/site', 'data': str(root), 'scripts': f'{root}/bin'})


def wheel_files(purelib=True, entry_points='', more=None, wheel_text='Generator: some tool (1.0): x\n'):
    files = {f'{INFO}/METADATA': 'Metadata-Version: 2.1\nName: My-Pkg\nVersion: 1.0\n',
             f'{INFO}/WHEEL': f'Wheel-Version: 1.0\n{wheel_text}Root-Is-Purelib: {"true" if purelib else "false"}\nTag: py3-none-any\n'}
    if entry_points:
        files[f'{INFO}/entry_points.txt'] = entry_points
    files.update(more or {})
    return {k: v if isinstance(v, bytes) else v.encode() for k, v in files.items()}


def record_of(files, hashes=None):
    """RECORD of the files; hashes: path -> what to write instead of the right hash, None to leave the file out"""
    out = io.StringIO()
    w = csv.writer(out, lineterminator='\n')
    for k, v in files.items():
        h = (hashes or {}).get(k, 'sha256=' + digest(v))
        if h is not None:
            w.writerow([k, h, len(v)])
    w.writerow([f'{INFO}/RECORD', '', ''])
    return out.getvalue().encode()


def write_wheel(path, files, record):
    with zipfile.ZipFile(path, 'w', zipfile.ZIP_STORED) as z:
        for k, v in files.items():
            z.writestr(k, v)
        if record is not None:
            z.writestr(f'{INFO}/RECORD', record)


def descriptor():
    return PackageDescriptor(NAME, StandardVersion((1, 0)))


def place(files, purelib=True, py='3.9', scripts=()):
    """wheel path -> path below the target, and what is written there (None: not compared)"""
    site = 'lib/site' if purelib else 'lib64/site'
    out = {}
    for k, v in files.items():
        if k.startswith(DATA + '/'):
            _, key, rest = k.split('/', 2)
            base = {'purelib': 'lib/site/', 'platlib': 'lib64/site/', 'scripts': 'bin/', 'data': '',
                    'headers': f'include/site/python{py}/{NAME}/'}[key]
            out[base + rest] = v
            if key == 'scripts' and v.startswith(b'#!python'):
                out[base + rest] = None
        else:
            out[f'{site}/{k}'] = v
    for s in scripts:
        out[f'bin/{s}'] = None
    return out, f'{site}/{INFO}'


def pyc_of(root, rel):
    return str(Path(importlib.util.cache_from_source(str(Path(root, rel)))).relative_to(root))
