ID = 'c18-one-event-per-frame'
PROP = 'C18'
NEEDS = 'a script that posts two events between two frames'
BREAKS = 'the second event has its effect one or more frames late'
EDITS = [
    ('lib/PlayerLua.cpp', r"""      ncluaw_event_free (evt);
    }
}

// Protected.""",
     r"""      ncluaw_event_free (evt);
      break;
    }
}

// Protected."""),
]
DEMO = r'''
static cairo_surface_t *sfc;
static unsigned
pixel (Demo &d, int x, int y, int w = 800, int h = 600)
{
  sfc = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  d.f->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  unsigned *p = (unsigned *) (cairo_image_surface_get_data (sfc)
    + y * cairo_image_surface_get_stride (sfc)) + x;
  unsigned v = *p & 0xffffff;
  cairo_surface_destroy (sfc);
  return v;
}

#include "ncluaw.h"
#include <vector>
static vector<string> got;
static vector<ncluaw_event_t> posts;
static cairo_surface_t *canvas;
extern "C" {
ncluaw_t *ncluaw_open (const char *p, int, int, char **)
{ got.push_back ("open"); return (ncluaw_t *) &got; }
void ncluaw_close (ncluaw_t *) { got.push_back ("close"); }
void ncluaw_cycle (ncluaw_t *) {}
void ncluaw_send_key_event (ncluaw_t *, const char *t, const char *k)
{ got.push_back (string ("key ") + t + " " + k); }
void ncluaw_send_ncl_event (ncluaw_t *, const char *t, const char *a,
                            const char *n, const char *)
{ got.push_back (string (t) + " " + a + " " + (n ? n : "")); }
ncluaw_event_t *ncluaw_receive (ncluaw_t *)
{
  if (posts.empty ())
    return nullptr;
  ncluaw_event_t *e = new ncluaw_event_t (posts.front ());
  posts.erase (posts.begin ());
  return e;
}
void ncluaw_event_free (ncluaw_event_t *e) { delete e; }
void *ncluaw_debug_get_surface (ncluaw_t *)
{
  if (!canvas)
    canvas = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 8, 8);
  return canvas;
}
}

void
run ()
{
  Demo d;
  d.write ("x.lua", "");
  CHECK (d.start ("<ncl><body><port id='p' component='m'/><media id='m' "
                  "src='x.lua'><property name='u' value='0'/><property "
                  "name='v' value='0'/></media></body></ncl>"));
  d.tick (0);
  for (auto n : { "u", "v" })
    {
      ncluaw_event_t e;
      e.cls = NCLUAW_EVENT_NCL;
      e.u.ncl.type = "attribution";
      e.u.ncl.action = "start";
      e.u.ncl.name = n;
      e.u.ncl.value = "1";
      posts.push_back (e);
    }
  pixel (d, 1, 1);
  d.tick (10);
  CHECK (d.prop ("m", "u") == "1");
  CHECK (d.prop ("m", "v") == "1");
}
'''
