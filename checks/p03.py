import doccheck
def prof(r, i):
    p = dict(steps=(60, 200), use_all=0.8, pages=(1, 3), new=dict(page=3, form=4, tiling=4, trgroup=4, res=10), reuse_ctx=0.5, ops=dict(q=8, mc=6, text=10, gs=5, ocg=3))
    if i % 4 == 0:
        p['nums'] = 'hard'
    if i % 4 == 1:
        p['names'] = 'nasty'
    return p
doccheck.define(globals(), 'P03', 'One document with many nested contexts; every content stream parsed by a strict operator grammar and resolved against its own resources.',
                prof, n=(750, 10000), MIN_STATS={'stream_ops': 10000},
                bulk=[[('op:path', 20000)], [('op:text', 300)], [('op:color/form', 1500)], [('op:gs/trgroup', 1500)], [('op:ocg', 500)], [('op:image/tiling', 400)], [('op:mc', 1500)], [('op:sh', 500)]])
