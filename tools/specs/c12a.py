ID = 'c12-height-moves-bottom'
PROP = 'C12'
NEEDS = 'a media placed by its bottom whose height is changed while it is shown'
BREAKS = 'the media is no longer placed at its distance from the bottom of the screen'
EDITS = [
    ('lib/Player.cpp', r"""        string bottom = _media->getProperty ("bottom");
        if (bottom != "")
          _media->setProperty ("bottom", bottom);

""",
     r""" """),
]
DEMO = r'''
static cairo_surface_t *sfc;
static unsigned
pixel (Demo &d, int x, int y, int w = 800, int h = 600)
{
  sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  d.f->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  unsigned *p = (unsigned *) (cairo_image_surface_get_data (sfc)
    + y * cairo_image_surface_get_stride (sfc)) + x;
  unsigned v = *p & 0xffffff;
  cairo_surface_destroy (sfc);
  return v;
}

void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='m'/><media id='m'>"
                  "<property name='height' value='20'/>"
                  "<property name='bottom' value='10'/>"
                  "<property name='background' value='red'/></media>"
                  "</body></ncl>"));
  d.tick (0);
  CHECK (pixel (d, 5, 575) == 0xff0000);
  d.obj ("m")->setProperty ("height", "100");
  d.tick (10);
  CHECK (pixel (d, 5, 495) == 0xff0000);
  CHECK (pixel (d, 5, 595) == 0);
}
'''
