import doccheck
def prof(r, i):
    p = dict(steps=(40, 140), use_all=0.8, collection=0.4, metadata=0.2, res=dict(annot=8, field=3, stream3d=1.5, embed=3, gstate=6, outline=3))
    if i % 5 == 0:
        p.update(pdfx=0.6, pdfa=0.7, img_rgb=False)
    if i % 5 == 1:
        p.update(strs='nasty', names='nasty')
    return p
doccheck.define(globals(), 'P02', 'One document from a random API program, every reachable dictionary checked against the key and type tables in lib/schema.py.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000},
                bulk=[[('pages', 300)], [('deep:outline', 200), ('wide:outline', 300)], [('deep:struct', 200), ('op:tag', 300)], [('deep:field', 100), ('wide:field', 200), ('annots', 100)], [('res:embed', 300)], [('res:label', 300)], [('res:ocg', 200), ('op:ocg', 300)], [('glyphs', 300)]])
