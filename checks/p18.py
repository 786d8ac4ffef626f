import doccheck
def prof(r, i):
    p = dict(steps=(50, 140), pages=(1, 4), tagged=0.9, use_all=0.5, nasty_text=0.2, outlines=0.0, embed=0.0,
             ops=dict(tag=25, mc=5, text=10, path=3, paint=2, annot=3), res=dict(struct=20, role=5, font=2, annot=2, shading=1, image=1, fn=1), reuse_ctx=0.5)
    if i % 5 == 0:
        p.update(steps=(250, 400), pages=(3, 12))
    return p
doccheck.define(globals(), 'P18', 'One document with a random structure tree and marked content on several interleaved pages; tree, parent tree and marks compared with the calls.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000},
                bulk=[[('deep:struct', 300), ('op:tag', 300)], [('wide:struct', 1500), ('op:tag', 900)], [('res:struct', 2000), ('op:tag', [256, 257, 700]), ('op:tag', 300), ('op:tag', 1)], [('pages', 150), ('res:struct', 300), ('op:tag', 100), ('pages', 30), ('op:tag', 100)], [('res:role', 300), ('res:struct', 300), ('op:tag', 100)]])
