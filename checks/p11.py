import doccheck
def prof(r, i):
    p = dict(steps=(25, 60), pages=(1, 3), use_all=0.6, measure=0.4, nasty_text=0.1, textlen=(0, 60), max_fonts=6, outlines=0.0, embed=0.0, tagged=0.1, annots=0.0,
             new=dict(page=4, form=2, tiling=1, trgroup=1, res=4), ops=dict(text=40, rtext=25), res=dict(font=14, image=1, shading=1, fn=1, annot=0, field=0, struct=0, stream3d=0))
    if i % 5 == 0:
        p.update(fonts=['AmstelVar-Roman.ttf'], max_fonts=5)
    elif i % 5 == 1:
        p.update(fonts=['P052-Roman.otf'], max_fonts=2)
    elif i % 5 == 2:
        p.update(textlen=(40, 400), fonts=['NotoSans-Regular.ttf', 'NotoSerif-Regular.ttf'])
    elif i % 5 == 3:
        p.update(synth=1.0)
    return p
doccheck.define(globals(), 'P11', 'One document showing text in up to six TrueType, CFF and variable fonts; every shown glyph compared with the source font through FreeType (outline, advance), plus the structure of the embedded program.',
                prof, n=(600, 8000), MIN_STATS={'glyphs_compared': 2000, 'measured': 50},
                bulk=[[('glyphs', [99, 100, 101])], [('glyphs', [200, 201, 199])], [('glyphs', [255, 256, 257, 300])], [('glyphs', [700, 1500])], [('gids', [100, 101, 254, 255, 256, 257])], [('gids', [600, 1200])], [('gids', 3000)], [('glyphs', 3000)],
              [('glyphs', 150), ('gids', 300)]])
