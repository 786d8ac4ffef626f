import doccheck
def prof(r, i):
    p = dict(steps=(60, 140), use_all=1.0, nasty_text=0.1, outlines=0.1, embed=0.0, tagged=0.1, new=dict(page=3, form=1, tiling=6, trgroup=1, res=12),
             ops=dict(color=12, sh=8, path=5, text=3, matrix=4), res=dict(fn=12, shading=16, shpat=8, sep=6, lab=2, icc=1, font=1, image=0.5, annot=0.5, struct=0.5, stream3d=0))
    if i % 5 == 0:
        p['nums'] = 'hard'
    return p
doccheck.define(globals(), 'P25', 'One document with functions of types 2, 3 and 4, shadings of types 2, 3, 4 and 6, shading and tiling patterns and separations, each reached and compared field by field (meshes decoded bit by bit).',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000},
                bulk=[[('res:fn', 800)], [('res:shading', 300)], [('res:sep', 300), ('op:color', 300)], [('op:sh', 400)]])
