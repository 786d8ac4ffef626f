import os
import doccheck, locales
def prof(r, i):
    p = dict(steps=(60, 160), nums='hard', strs='normal', nasty_text=0.0, boxes=0.8, use_all=0.8, annots=1.0,
             ops=dict(path=20, state=10, dash=6, devcolor=8, color=8, text=10, rtext=4, viewport=3, props=3, matrix=3, trans=2, annot=4),
             res=dict(gstate=8, fn=6, shading=6, lab=3, annot=6, outline=4, font=2))
    if i % 6 == 1:
        p['env'] = {'CAPY_DEBUG_PDF': '1'}
    if i % 4 == 2:
        p['locale'] = True          # decimal commas
    return p
doccheck.define(globals(), 'P10', 'One document whose numbers span zero, denormals, rounding ties, powers of two and huge values; every number in streams and dictionaries read back.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000, 'ops': 8000},
                prepare=lambda tier: (locales.helper(), locales.ensure()))
