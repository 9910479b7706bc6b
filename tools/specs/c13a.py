ID = 'c13-height-percent'
PROP = 'C13'
NEEDS = 'the height of a media animated to a percentage, on a screen that is not a square'
BREAKS = 'the animation runs to a percentage of the width of the screen'
EDITS = [
    ('lib/PlayerAnimator.cpp', r"""  TRACE ("---> from %s", from.c_str ());
  TRACE ("---> to %s", to.c_str ());

  if (name == "top" || name == "height")
""",
     r"""  TRACE ("---> from %s", from.c_str ());
  TRACE ("---> to %s", to.c_str ());

  if (name == "top")
"""),
    ('lib/PlayerAnimator.cpp', r"""    {
      if (from != "")
        current = ginga::parse_percent (from, width, 0, G_MAXINT);
      target = ginga::parse_percent (to, width, 0, G_MAXINT);
    }
  else if (name == "transparency" || name == "background")
    {
      if (from != "")
        current = ginga::parse_percent (from, 255, 0, 255);
      target = ginga::parse_percent (to, 255, 0, 255);
    }
  else
    {
      if (from != "")
        current = ginga::parse_percent (from, 100, 0, G_MAXINT);
      target = ginga::parse_percent (to, 100, 0, G_MAXINT);
    }

  this->cancel (name);""",
     r"""    {
      if (from != "")
        current = ginga::parse_percent (from, width, 0, G_MAXINT);
      target = ginga::parse_percent (to, width, 0, G_MAXINT);
    }
  else if (name == "transparency" || name == "background")
    {
      if (from != "")
        current = ginga::parse_percent (from, 255, 0, 255);
      target = ginga::parse_percent (to, 255, 0, 255);
    }
  else
    {
      int base = (name == "height") ? width : 100;
      if (from != "")
        current = ginga::parse_percent (from, base, 0, G_MAXINT);
      target = ginga::parse_percent (to, base, 0, G_MAXINT);
    }

  this->cancel (name);"""),
]
DEMO = r'''
static cairo_surface_t *sfc;
static unsigned
pixel (Demo &d, int x, int y, int w = 800, int h = 600)
{
  sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  d.f->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  unsigned *p = (unsigned *) (cairo_image_surface_get_data (sfc)
    + y * cairo_image_surface_get_stride (sfc)) + x;
  unsigned v = *p & 0xffffff;
  cairo_surface_destroy (sfc);
  return v;
}

void
run ()
{
  Demo d;
  CHECK (d.start (
      "<ncl><head><connectorBase><causalConnector id='c'><simpleCondition "
      "role='onEnd'/><simpleAction role='set' value='50%' duration='1s'/>"
      "</causalConnector></connectorBase></head><body><port id='p' "
      "component='m'/><port id='q' component='t'/><media id='m'>"
      "<property name='height' value='10%'/>"
      "<property name='background' value='red'/></media>"
      "<media id='t'/><link xconnector='c'><bind role='onEnd' component='t'/>"
      "<bind role='set' component='m' interface='height'/></link>"
      "</body></ncl>"));
  d.tick (0);
  CHECK (pixel (d, 5, 70) == 0);
  CHECK (d.act ("t", Event::STOP) > 0);
  for (int i = 0; i < 13; i++)
    {
      d.tick (100);
      pixel (d, 5, 5);
    }
  CHECK (pixel (d, 5, 290) == 0xff0000);
  CHECK (pixel (d, 5, 320) == 0);
}
'''
