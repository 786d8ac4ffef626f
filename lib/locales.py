"""A locale with decimal commas and digit grouping, compiled from the system's locale sources."""
import ctypes as C, fcntl, os, shutil, subprocess
import build

NAME = 'de_DE.UTF-8'


def ensure():
    """-> directory for LOCPATH, or None where localedef or its sources are missing"""
    if not shutil.which('localedef') or not os.path.exists('/usr/share/i18n/locales/de_DE'):
        return None
    os.makedirs(build.BUILD, exist_ok=True)
    d = os.path.join(build.BUILD, 'locale')
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, NAME)):
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, 'tmp')
            if subprocess.run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', t], capture_output=True).returncode not in (0, 1):
                return None
            os.rename(t, os.path.join(d, NAME))
    return d


def helper():
    """Library that sets the global C++ locale (which also sets that of C)."""
    d = build.BUILD
    src = os.path.join(build.VERIF, 'lib', 'cpplocale.cpp')
    so = os.path.join(d, 'cpplocale.so')
    with open(so + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            build._run(['g++', '-O1', '-shared', '-fPIC', src, '-o', so + '.tmp'])
            os.rename(so + '.tmp', so)
    return so


def activate(on=True):
    """In this process: LOCPATH has to be in the environment already.  -> True when decimal commas are in use"""
    dll = C.CDLL(helper())
    return bool(dll.set_global_locale(NAME.encode() if on else b'C.UTF-8'))
