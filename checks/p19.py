import doccheck
def prof(r, i):
    p = dict(steps=(30, 90), pages=(1, 8), outlines=1.0, use_all=0.1, nasty_text=0.3, embed=0.0, ops=dict(path=3, paint=2), res=dict(outline=60, font=0.5))
    if i % 5 == 0:
        p.update(steps=(200, 400))
    if i % 5 == 1:
        p['nums'] = 'hard'
    return p
doccheck.define(globals(), 'P19', 'One document with a random outline forest; every link, count, title, colour, style and destination compared with the calls.',
                prof, n=(750, 10000), MIN_STATS={'objects': 5000},
                bulk=[[('deep:outline', 300)], [('wide:outline', 1500)], [('res:outline', 2000)], [('pages', 150), ('res:outline', 200)], [('wide:outline', 200), ('deep:outline', 100), ('res:outline', 500)]])
