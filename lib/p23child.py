"""Builds one document of check P23 in a process of its own: p23child.py SEED CASE PATH OPTIONS(json)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import capi, p23
seed, i, path, opt = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], json.loads(sys.argv[4])
if opt.get('locale'):
    import locales
    if not locales.activate():
        sys.exit(7)
if opt.get('waste'):
    keep = [bytearray(64 * k) for k in range(opt['waste'])]
lib = capi.Lib(os.environ['CAPY_LIB'])
for k in range(opt.get('history', 0)):
    p23.program(lib, seed + 1000, i * 7 + k, path)
p23.program(lib, seed, i, path, opt.get('interleave'))
os._exit(0)
