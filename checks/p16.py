import doccheck
def prof(r, i):
    p = dict(steps=(60, 140), use_all=0.9, profiles=0.8, nasty_text=0.1, outlines=0.2, convert=0.6, icc_synth=0.4, embed=0.0, tagged=0.0, annots=0.0, ops=dict(devcolor=20, color=25, text=10, path=3), reuse_ctx=0.5,
             res=dict(icc=6, lab=6, sep=6, shpat=4, image=4, font=1, annot=0, struct=0, stream3d=0), new=dict(page=4, form=2, tiling=3, trgroup=2, res=10))
    if i % 5 == 0:
        p.update(pdfx=1.0, img_rgb=False)
    return p
doccheck.define(globals(), 'P16', 'One document with colours of every kind set for fill and stroke in drawing and text contexts; operators, operands and the colour spaces they name compared with the calls.',
                prof, n=(600, 8000), MIN_STATS={'objects': 5000, 'converted_images': 100})
