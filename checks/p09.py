import doccheck
def prof(r, i):
    p = dict(steps=(40, 120), strs='nasty', names='nasty', titles=0.4, lang=0.8, embed=0.9, collection=0.5, tagged=0.7, use_all=0.7,
             ops=dict(mc=10, annot=6, color=8, tag=4, path=3, paint=2), res=dict(sep=6, role=4, struct=5, embed=4, annot=8, field=4, font=1))
    if i % 3 == 2:
        p['inject'] = (('ascii', 'nul'),)
    if i % 6 == 1:
        p['env'] = {'CAPY_DEBUG_PDF': '1'}
    return p
doccheck.define(globals(), 'P09', 'One document whose names (tags, roles, separations, subtypes, schema keys, states) and byte strings (URIs, languages, property values) use every allowed byte; in every third one calls are first made with strings their place can not represent, which have to be refused.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000, 'ops': 3000, 'refused_strings': 1000})
