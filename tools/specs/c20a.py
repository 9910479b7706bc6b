ID = 'c20-size-alone'
PROP = 'C20'
NEEDS = 'nothing but the size of the font of a text changed while it is shown'
BREAKS = 'the text stays in its former size until something else changes'
EDITS = [
    ('lib/PlayerText.cpp', r"""    case PROP_FONT_SIZE:
      _prop.fontSize = value;
      _dirty = true;
      break;""",
     r"""    case PROP_FONT_SIZE:
      _prop.fontSize = value;
      break;"""),
]
DEMO = r'''
static cairo_surface_t *sfc;
static unsigned
pixel (Demo &d, int x, int y, int w = 800, int h = 600)
{
  sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  d.f->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  unsigned *p = (unsigned *) (cairo_image_surface_get_data (sfc)
    + y * cairo_image_surface_get_stride (sfc)) + x;
  unsigned v = *p & 0xffffff;
  cairo_surface_destroy (sfc);
  return v;
}

static int
ink (Demo &d)
{
  int n = 0;
  for (int y = 0; y < 60; y += 2)
    for (int x = 0; x < 120; x += 2)
      n += pixel (d, x, y, 120, 60) != 0;
  return n;
}
void
run ()
{
  Demo d (120, 60);
  d.write ("t.txt", "MMM");
  CHECK (d.start ("<ncl><body><port id='p' component='m'/><media id='m' "
                  "src='t.txt'><property name='fontColor' value='white'/>"
                  "<property name='fontSize' value='8'/></media></body></ncl>"));
  d.tick (0);
  int a = ink (d);
  d.obj ("m")->setProperty ("fontSize", "20");
  d.tick (10);
  CHECK (ink (d) > a + a / 2);
}
'''
