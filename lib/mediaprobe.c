// Feeds picture, colour profile and font files to the library, one line of results per file.  Meant to run under valgrind.
#include <capypdf.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static char *slurp(const char *fn, long *n) {
    FILE *f = fopen(fn, "rb");
    fseek(f, 0, SEEK_END);
    *n = ftell(f);
    rewind(f);
    char *b = (char *)malloc(*n + 1);
    if(fread(b, 1, *n, f) != (size_t)*n) {
        abort();
    }
    fclose(f);
    return b;
}

int main(int argc, char **argv) {
    const char *out = argv[1];
    for(int i = 2; i < argc; ++i) {
        long n;
        char *b = slurp(argv[i], &n);
        const char *ext = strrchr(argv[i], '.');
        int r[12];
        memset(r, -1, sizeof(r));
        CapyPDF_DocumentProperties *dp;
        CapyPDF_Generator *g;
        CapyPDF_DrawContext *ctx;
        capy_document_properties_new(&dp);
        fprintf(stderr, "FILE %s\n", argv[i]);
        capy_generator_new(out, dp, &g);
        capy_page_draw_context_new(g, &ctx);
        if(!strcmp(ext, ".icc")) {
            CapyPDF_IccColorSpaceId cid;
            r[0] = capy_generator_load_icc_profile(g, argv[i], &cid);
            for(int k = 1; k < 5; ++k) {
                r[k] = capy_generator_add_icc_profile(g, b, n, k, &cid);
            }
            for(int k = 0; k < 3; ++k) {
                // as output profile
                CapyPDF_DocumentProperties *dp2;
                CapyPDF_Generator *g2 = NULL;
                capy_document_properties_new(&dp2);
                capy_document_properties_set_device_profile(dp2, (CapyPDF_Device_Colorspace)k, argv[i]);
                r[5 + k] = capy_generator_new("unused.pdf", dp2, &g2);
                if(r[5 + k] == 0) {
                    for(int c = 0; c < 3; ++c) {
                        CapyPDF_RasterImageBuilder *rb;
                        CapyPDF_RasterImage *im, *im2;
                        static const char px[25] = "\0\1\2\3\4\5\6\7\x80\x90\xff\xfe\xfd\x10\x20\x30\x40\x50\x60\x70\x7f\x11\x12\x13";
                        capy_raster_image_builder_new(&rb);
                        capy_raster_image_builder_set_size(rb, 2, 3);
                        capy_raster_image_builder_set_colorspace(rb, (CapyPDF_Image_Colorspace)c);
                        capy_raster_image_builder_set_pixel_data(rb, px, c == 0 ? 18 : c == 1 ? 6 : 24);
                        capy_raster_image_builder_build(rb, &im);
                        if(capy_generator_convert_image(g2, im, (CapyPDF_Device_Colorspace)k, (CapyPDF_Rendering_Intent)(i % 4), &im2) == 0) {
                            CapyPDF_ImagePdfProperties *ip;
                            CapyPDF_ImageId iid;
                            capy_image_pdf_properties_new(&ip);
                            capy_generator_add_image(g2, im2, ip, &iid);
                            capy_image_pdf_properties_destroy(ip);
                            capy_raster_image_destroy(im2);
                        }
                        capy_raster_image_destroy(im);
                        capy_raster_image_builder_destroy(rb);
                    }
                    capy_generator_destroy(g2);
                }
                capy_document_properties_destroy(dp2);
            }
        } else if(!strcmp(ext, ".font")) {
            CapyPDF_FontId fid;
            r[0] = capy_generator_load_font(g, argv[i], NULL, &fid);
            if(r[0] == 0) {
                double w;
                r[1] = capy_generator_text_width(g, "AB", 2, fid, 10, &w);
                const char *texts[] = {"A", "B", "H", "e", "\xc3\xa4", "\xe4\xb8\x80"};
                for(int k = 0; k < 6; ++k) {
                    r[2 + k] = capy_dc_render_text(ctx, texts[k], -1, fid, 10, 1, 1);
                }
            }
        } else {
            for(int mem = 0; mem < 2; ++mem) {
                CapyPDF_RasterImage *im = NULL, *im2 = NULL;
                r[mem] = mem ? capy_generator_load_image_from_memory(g, b, n, &im) : capy_generator_load_image(g, argv[i], &im);
                if(r[mem] == 0) {
                    uint32_t w, h;
                    CapyPDF_ImagePdfProperties *ip;
                    CapyPDF_ImageId iid;
                    capy_raster_image_get_size(im, &w, &h);
                    capy_image_pdf_properties_new(&ip);
                    if(mem) {
                        r[2] = capy_generator_convert_image(g, im, (CapyPDF_Device_Colorspace)(i % 2), (CapyPDF_Rendering_Intent)(i % 4), &im2);
                        if(r[2] == 0) {
                            r[3] = capy_generator_add_image(g, im2, ip, &iid);
                            capy_raster_image_destroy(im2);
                        }
                    }
                    r[4 + mem] = capy_generator_add_image(g, im, ip, &iid);
                    if(r[4 + mem] == 0) {
                        capy_dc_cmd_Do_image(ctx, iid);
                    }
                    capy_image_pdf_properties_destroy(ip);
                    capy_raster_image_destroy(im);
                }
            }
        }
        r[10] = capy_generator_add_page(g, ctx);
        capy_dc_destroy(ctx);
        r[11] = capy_generator_write(g);
        capy_generator_destroy(g);
        capy_document_properties_destroy(dp);
        free(b);
        printf("%s", argv[i]);
        for(int k = 0; k < 12; ++k) {
            printf(" %d", r[k]);
        }
        printf("\n");
        fflush(stdout);
    }
    return 0;
}
