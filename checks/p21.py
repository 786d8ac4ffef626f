import doccheck
def prof(r, i):
    p = dict(steps=(40, 140), pages=(1, 25), boxes=0.8, labels=0.9, layout=0.7, mode=0.7, lang=0.6, titles=0.8, tagged=0.4, metadata=0.2, use_all=0.2, nasty_text=0.3,
             new=dict(page=10, form=1, tiling=1, trgroup=1, res=10), ops=dict(props=14, trans=8, nav=6, group=4, viewport=8, ocg=6), res=dict(label=8, ocg=4, font=1), reuse_ctx=0.5)
    return p
doccheck.define(globals(), 'P21', 'One document with up to 25 pages added in random order, boxes at document and page level, labels, transitions, sub-page navigation, viewports and viewer settings.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000},
                bulk=[[('pages', [255, 256, 257])], [('pages', 1200)], [('res:label', 400), ('pages', 300)], [('op:viewport', 300)], [('op:nav', 200), ('res:ocg', 50)], [('res:label', [255, 256, 257])]])
