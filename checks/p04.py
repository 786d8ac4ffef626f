import doccheck
def prof(r, i):
    p = dict(steps=(80, 200), use_all=0.8, pages=(1, 3), ops=dict(path=24, paint=10, state=12, text=12, dash=4, devcolor=6, color=8))
    if i % 5 == 0:
        p['nums'] = 'hard'
    return p
doccheck.define(globals(), 'P04', 'One document; the operators of every content stream compared one by one with the drawing calls made.',
                prof, n=(750, 10000), MIN_STATS={'ops': 10000},
                bulk=[[('op:path', 40000)], [('op:text', 300)], [('op:color/form', 2000)], [('op:state/trgroup', 8000)], [('op:devcolor', 8000)], [('op:dash/tiling', 5000)], [('op:paint', 8000)], [('op:path/form', 40000)]])
