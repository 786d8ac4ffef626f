import doccheck
def prof(r, i):
    p = dict(steps=(60, 140), use_all=1.0, nasty_text=0.1, outlines=0.1, embed=0.0, tagged=0.1, new=dict(page=3, form=1, tiling=1, trgroup=7, res=12),
             ops=dict(gs=15, tr=10, group=8, matrix=6, path=5, text=3, props=4), res=dict(gstate=25, softmask=12, font=1, image=1, annot=0.5, struct=0.5, stream3d=0, shading=1))
    if i % 5 == 0:
        p['nums'] = 'hard'
    return p
doccheck.define(globals(), 'P28', 'One document with graphics states using every parameter, soft masks over transparency groups and nested groups; each reached and compared field by field.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000},
                bulk=[[('res:gstate', 2000)], [('res:softmask', 200), ('res:gstate', 300)], [('op:gs', 1000)], [('op:tr', 500)]])
