/* Independent view of font files, through FreeType: outlines, advances and character maps. */
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_OUTLINE_H
#include FT_MULTIPLE_MASTERS_H
#include FT_TRUETYPE_TABLES_H
#include <stdlib.h>
#include <string.h>

static FT_Library lib;

void *ftp_open(const char *path, int idx) {
    FT_Face f;
    if(!lib && FT_Init_FreeType(&lib)) return 0;
    if(FT_New_Face(lib, path, idx, &f)) return 0;
    return f;
}

void *ftp_open_mem(const char *buf, long n) {
    FT_Face f;
    unsigned char *c = malloc(n ? n : 1);
    memcpy(c, buf, n);
    if(!lib && FT_Init_FreeType(&lib)) return 0;
    if(FT_New_Memory_Face(lib, c, n, 0, &f)) { free(c); return 0; }
    return f;
}

void ftp_close(void *f) { FT_Done_Face((FT_Face)f); }
int ftp_upem(void *f) { return ((FT_Face)f)->units_per_EM; }
int ftp_num_glyphs(void *f) { return (int)((FT_Face)f)->num_glyphs; }
int ftp_is_sfnt(void *f) { return FT_IS_SFNT((FT_Face)f) ? 1 : 0; }
int ftp_is_cid(void *f) { return FT_IS_CID_KEYED((FT_Face)f) ? 1 : 0; }
int ftp_gid(void *f, unsigned cp) { return (int)FT_Get_Char_Index((FT_Face)f, cp); }

int ftp_chars(void *f, unsigned *out, int max) {
    FT_UInt g;
    int n = 0;
    FT_ULong c = FT_Get_First_Char((FT_Face)f, &g);
    while(g && n < max) {
        out[n++] = (unsigned)c;
        c = FT_Get_Next_Char((FT_Face)f, c, &g);
    }
    return n;
}

/* axes: n tags (4 bytes big endian) and values */
int ftp_set_var(void *fp, int instance, int n, const unsigned *tags, const int *vals) {
    FT_Face f = fp;
    FT_MM_Var *mm;
    FT_Fixed c[64];
    FT_UInt inst = 0;
    int i, k, rc = 0;
    if(FT_Get_MM_Var(f, &mm)) return 1;
    if(instance >= 0) inst = instance;
    else if(FT_Get_Default_Named_Instance(f, &inst)) return 2;
    if(FT_Set_Named_Instance(f, inst)) return 3;
    if(FT_Get_Var_Design_Coordinates(f, mm->num_axis, c)) return 4;
    for(k = 0; k < n; ++k) {
        for(i = 0; i < (int)mm->num_axis; ++i)
            if(mm->axis[i].tag == tags[k]) { c[i] = (FT_Fixed)vals[k] * 65536; break; }
        if(i == (int)mm->num_axis) rc = 5;
    }
    if(FT_Set_Var_Design_Coordinates(f, mm->num_axis, c)) rc = 6;
    FT_Done_MM_Var(lib, mm);
    return rc;
}

struct acc { double *o; int n, max; };
static void put(struct acc *a, double v) { if(a->n < a->max) a->o[a->n] = v; a->n++; }
static int mv(const FT_Vector *t, void *u) { put(u, 1); put(u, t->x); put(u, t->y); return 0; }
static int ln(const FT_Vector *t, void *u) { put(u, 2); put(u, t->x); put(u, t->y); return 0; }
static int cn(const FT_Vector *c, const FT_Vector *t, void *u) { put(u, 3); put(u, c->x); put(u, c->y); put(u, t->x); put(u, t->y); return 0; }
static int cb(const FT_Vector *c, const FT_Vector *d, const FT_Vector *t, void *u) {
    put(u, 4); put(u, c->x); put(u, c->y); put(u, d->x); put(u, d->y); put(u, t->x); put(u, t->y); return 0; }

/* number of doubles, or -1 when the glyph does not load */
int ftp_outline(void *fp, int gid, double *out, int max) {
    FT_Face f = fp;
    struct acc a = {out, 0, max};
    FT_Outline_Funcs fn = {mv, ln, cn, cb, 0, 0};
    if(FT_Load_Glyph(f, gid, FT_LOAD_NO_SCALE | FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP)) return -1;
    if(f->glyph->format != FT_GLYPH_FORMAT_OUTLINE) return -2;
    FT_Outline_Decompose(&f->glyph->outline, &fn, &a);
    return a.n;
}

int ftp_advance(void *fp, int gid) {
    FT_Face f = fp;
    if(FT_Load_Glyph(f, gid, FT_LOAD_NO_SCALE | FT_LOAD_NO_HINTING | FT_LOAD_NO_BITMAP)) return -1;
    return (int)f->glyph->metrics.horiAdvance;
}

int ftp_metric(void *fp, int which) {
    FT_Face f = fp;
    switch(which) {
    case 0: return (int)f->bbox.xMin;
    case 1: return (int)f->bbox.yMin;
    case 2: return (int)f->bbox.xMax;
    case 3: return (int)f->bbox.yMax;
    case 4: return f->ascender;
    case 5: return f->descender;
    }
    return 0;
}

/* unscaled horizontal kerning of two glyphs */
int ftp_kern(void *fp, int l, int r) {
    FT_Face f = fp;
    FT_Vector k = {0, 0};
    if(!FT_HAS_KERNING(f) || FT_Get_Kerning(f, l, r, FT_KERNING_UNSCALED, &k)) return 0;
    return (int)k.x;
}
