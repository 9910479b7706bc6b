ID = 'c20-back-at-top'
PROP = 'C20'
NEEDS = 'a text with a font background that is not aligned at the top'
BREAKS = 'the background of the letters stays at the top of the media'
EDITS = [
    ('lib/PlayerText.cpp', r"""      cairo_rectangle (cr, r.x, r.y + align, r.width, r.height);""",
     r"""      cairo_rectangle (cr, r.x, r.y, r.width, r.height);"""),
]
DEMO = r'''
static cairo_surface_t *sfc;
static unsigned
pixel (Demo &d, int x, int y, int w = 800, int h = 600)
{
  sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  d.f->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  unsigned *p = (unsigned *) (cairo_image_surface_get_data (sfc)
    + y * cairo_image_surface_get_stride (sfc)) + x;
  unsigned v = *p & 0xffffff;
  cairo_surface_destroy (sfc);
  return v;
}

void
run ()
{
  Demo d (120, 100);
  d.write ("t.txt", "M");
  CHECK (d.start ("<ncl><body><port id='p' component='m'/><media id='m' "
                  "src='t.txt'><property name='fontBgColor' value='red'/>"
                  "<property name='vertAlign' value='bottom'/></media>"
                  "</body></ncl>"));
  d.tick (0);
  CHECK (pixel (d, 1, 1, 120, 100) == 0);
  CHECK (pixel (d, 1, 96, 120, 100) == 0xff0000);
}
'''
