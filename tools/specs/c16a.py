ID = 'c16-text-surface'
PROP = 'C16'
NEEDS = 'a text whose style or place is changed many times'
BREAKS = 'every change keeps the picture of the text that is replaced'
EDITS = [
    ('lib/PlayerText.cpp', r"""  if (_surface != nullptr)
    {
      cairo_surface_destroy (_surface);
      if (_opengl)
        GL::delete_texture (&_gltexture);
    }
""",
     r"""  if (_opengl && _surface != nullptr)
    GL::delete_texture (&_gltexture);
"""),
]
DEMO = r'''
static cairo_surface_t *sfc;
static unsigned
pixel (Demo &d, int x, int y, int w = 800, int h = 600)
{
  sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  d.f->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  unsigned *p = (unsigned *) (cairo_image_surface_get_data (sfc)
    + y * cairo_image_surface_get_stride (sfc)) + x;
  unsigned v = *p & 0xffffff;
  cairo_surface_destroy (sfc);
  return v;
}

#include <malloc.h>
static size_t
used ()
{
  struct mallinfo2 m = mallinfo2 ();
  return m.uordblks + m.hblkhd;
}
void
run ()
{
  Demo d;
  d.write ("t.txt", "Ginga");
  CHECK (d.start ("<ncl><body><port id='p' component='m'/><media id='m' "
                  "src='t.txt'/></body></ncl>"));
  d.tick (0);
  size_t before = 0;
  for (int i = 0; i < 40; i++)
    {
      if (i == 10)
        before = used ();
      d.obj ("m")->setProperty ("fontColor", i & 1 ? "red" : "blue");
      d.tick (10);
      pixel (d, 5, 5);
    }
  CHECK (used () < before + 4000000);
}
'''
