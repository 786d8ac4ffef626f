"""LeakSanitizer asked for what a history of calls left behind."""
import ctypes as C, os, re

OURS = re.compile(r'libcapypdf|/src/\w+\.(?:cpp|hpp)|capypdf::|lib(?:freetype|lcms|png|jpeg|tiff)')


class Leaks:
    def __init__(self):
        self.dll = C.CDLL(None)
        try:
            self.f = getattr(self.dll, '__lsan_do_recoverable_leak_check')
        except AttributeError:
            self.f = None

    def check(self):
        """-> report text of new leaks whose stack contains the library, or '' (None when leaks can not be looked for)"""
        if self.f is None:
            return None
        pos = os.lseek(2, 0, 1)
        self.f()
        end = os.lseek(2, 0, 2)
        with open('/proc/self/fd/2', 'rb') as fd:
            fd.seek(pos)
            t = fd.read(end - pos).decode('utf-8', 'replace')
        if 'LeakSanitizer has encountered a fatal error' in t:
            return None
        out = []
        for part in re.split(r'\n(?=(?:Direct|Indirect) leak of)', t):
            if part.startswith(('Direct', 'Indirect')) and OURS.search(part):
                out.append(part)
        return '\n'.join(out)


def leak_key(t):
    m = re.search(r'in (capypdf::\S+?|capy_\w+)\(?[ (<]', t.replace('internal::', ''))
    names = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]+?) \S*/src/', t)
    f = [re.sub(r'\(.*', '', n).split('::')[-1].split('<')[0] for n in names]
    return 'leak@' + (f[0] if f else '?')
