import doccheck
def prof(r, i):
    p = dict(steps=(30, 90), strs='nasty', titles=1.0, labels=0.9, outlines=1.0, embed=0.9, collection=0.5, tagged=0.8, lang=0.5, metadata=0.2, use_all=0.7,
             ops=dict(annot=8, text=8, viewport=4, tag=5, path=3, paint=2), res=dict(outline=6, struct=6, embed=4, annot=8, field=4, label=3, ocg=4, font=2))
    if i % 3 == 2:
        p['inject'] = (('utf8', 'nul'),)
    if i % 6 == 0:
        p.update(pdfa=0.8, pdfx=0.5, img_rgb=False)
    if i % 6 == 1:
        p['env'] = {'CAPY_DEBUG_PDF': '1'}
    return p
doccheck.define(globals(), 'P08', 'One document whose titles, outlines, notes, labels, structure texts, field names, file names and layer names are random Unicode; every text string decoded and compared; in every third one calls are first made with broken UTF-8 or an embedded NUL, which have to be refused.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000, 'refused_strings': 2000},
                bulk=[[('string', [255, 256, 1000])], [('string', 33000)], [('string', [126, 127, 128])], [('string', 70000)]])
