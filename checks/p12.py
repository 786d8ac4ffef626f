import doccheck
def prof(r, i):
    p = dict(steps=(25, 60), pages=(1, 3), use_all=0.6, nasty_text=0.4, textlen=(0, 40), max_fonts=5, outlines=0.0, embed=0.0, tagged=0.5, annots=0.0,
             new=dict(page=4, form=2, tiling=1, trgroup=1, res=4), ops=dict(text=40, rtext=20, tag=4), res=dict(font=14, image=1, shading=1, fn=1, annot=0, field=0, struct=2, stream3d=0))
    if i % 5 == 0:
        p.update(textlen=(40, 400), fonts=['NotoSans-Regular.ttf', 'NotoSansSymbols2-Regular.ttf'])
    if i % 5 == 3:
        p.update(synth=1.0)
    if i % 7 == 3:
        p['env'] = {'CAPY_SCRAPE_PROTECT': '1'} if 0 else {}
    return p
doccheck.define(globals(), 'P12', 'One document with shown text; every show operation decoded through the ToUnicode map and ActualText and compared with the text given.',
                prof, n=(600, 8000), MIN_STATS={'glyphs_compared': 2000},
                bulk=[[('glyphs', [99, 100, 101])], [('glyphs', [200, 201, 199])], [('glyphs', [255, 256, 257, 300])], [('glyphs', [700, 1500])], [('gids', [100, 101, 254, 255, 256, 257])], [('gids', [600, 1200])], [('gids', 3000)], [('glyphs', 3000)],
              [('glyphs', 150), ('gids', 300)]])
