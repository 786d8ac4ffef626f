import doccheck
def prof(r, i):
    p = dict(steps=(60, 140), pages=(1, 5), use_all=0.8, nasty_text=0.3, embed=0.6, reuse_ctx=0.5, ops=dict(annot=30, ocg=12, nav=5, path=3, paint=2, text=3),
             res=dict(annot=25, field=10, ocg=8, embed=5, stream3d=2, font=1, image=1, shading=1), new=dict(page=6, form=5, tiling=1, trgroup=1, res=10))
    return p
doccheck.define(globals(), 'P20', 'One document with annotations of every kind, form fields with widgets, and optional content; dictionaries, parents and page lists compared with the calls.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000},
                bulk=[[('deep:field', 200)], [('wide:field', 500)], [('res:field', 600)], [('annots', 250)], [('res:ocg', 300), ('op:ocg', 300)], [('res:field', 100), ('annots', 80), ('annots', 80)], [('res:ocg', 100), ('res:stream3d', 30)] ])
