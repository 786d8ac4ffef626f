import doccheck
def prof(r, i):
    p = dict(steps=(25, 60), use_all=1.0, nasty_text=0.1, outlines=0.0, embed=0.0, tagged=0.0, annots=0.0, img_max=r.choice([3, 17, 40]), ops=dict(image=20, path=3, text=1),
             res=dict(image=60, font=0.3, annot=0, struct=0, stream3d=0, gstate=1), new=dict(page=4, form=1, tiling=1, trgroup=2, res=10))
    return p
doccheck.define(globals(), 'P15', 'One document with raw images (all colour spaces, depths, alpha, compressed and not) and image files; every embedded pixel and mask sample compared with the source.',
                prof, n=(750, 10000), MIN_STATS={'objects': 2000},
                bulk=[[('image:random', [1 << 20, 1 << 16])], [('image:rep', [1 << 20, 3 << 20])], [('res:image', 300)], [('image:random', [2 << 20, 3 << 20])]])
