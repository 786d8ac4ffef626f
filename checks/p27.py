import doccheck
def prof(r, i):
    p = dict(steps=(30, 80), embed=1.0, big=0.012, collection=0.7, use_all=0.5, strs=r.choice(['normal', 'nasty']), blob=(0, r.choice([50, 4000, 100000])), ops=dict(annot=5, path=3),
             res=dict(embed=40, annot=6, font=0.5), ncollsub=6)
    if i % 6 == 0:
        p.update(pdfa=0.9)
    if i % 6 == 1:
        p['env'] = {'CAPY_DEBUG_PDF': '1'}
    return p
doccheck.define(globals(), 'P27', 'One document with random embedded files (from disk and memory, empty to 100 kB, random names) and collections; names, order, bytes, subtypes and schema compared.',
                prof, n=(750, 10000), MIN_STATS={'objects': 3000},
                bulk=[[('embed:random', [1 << 20, (1 << 20) - 1, (1 << 20) + 1])], [('embed:zero', [1 << 20, 1 << 21, (1 << 22) + 1])], [('embed:rep', [1 << 20, 2500000])], [('res:embed', [255, 256, 257])], [('res:embed', 1200)], [('embed:random', 5 << 20)]])
