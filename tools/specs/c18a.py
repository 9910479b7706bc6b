ID = 'c18-stop-keeps-directory'
PROP = 'C18'
NEEDS = "a script in another directory than the player's, ended, and then a file with a relative name"
BREAKS = 'the player stays in the directory of the script'
EDITS = [
    ('lib/PlayerLua.cpp', r"""  this->pwdSave ();
  ncluaw_cycle (_nw);
  this->pwdRestore ();

  ncluaw_close (_nw);
  _nw = nullptr;
""",
     r"""  this->pwdSave ();
  ncluaw_cycle (_nw);
  ncluaw_close (_nw);
  _nw = nullptr;
"""),
]
DEMO = r'''
#include "ncluaw.h"
#include <vector>
static vector<string> got;
static vector<ncluaw_event_t> posts;
static cairo_surface_t *canvas;
extern "C" {
ncluaw_t *ncluaw_open (const char *p, int, int, char **)
{ got.push_back ("open"); return (ncluaw_t *) &got; }
void ncluaw_close (ncluaw_t *) { got.push_back ("close"); }
void ncluaw_cycle (ncluaw_t *) {}
void ncluaw_send_key_event (ncluaw_t *, const char *t, const char *k)
{ got.push_back (string ("key ") + t + " " + k); }
void ncluaw_send_ncl_event (ncluaw_t *, const char *t, const char *a,
                            const char *n, const char *)
{ got.push_back (string (t) + " " + a + " " + (n ? n : "")); }
ncluaw_event_t *ncluaw_receive (ncluaw_t *)
{
  if (posts.empty ())
    return nullptr;
  ncluaw_event_t *e = new ncluaw_event_t (posts.front ());
  posts.erase (posts.begin ());
  return e;
}
void ncluaw_event_free (ncluaw_event_t *e) { delete e; }
void *ncluaw_debug_get_surface (ncluaw_t *)
{
  if (!canvas)
    canvas = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 8, 8);
  return canvas;
}
}

#include <sys/stat.h>
void
run ()
{
  Demo d;
  mkdir ((string (getenv ("DEMO_TMP")) + "/s").c_str (), 0700);
  d.write ("s/x.lua", "");
  CHECK (d.start ("<ncl><body><port id='p' component='m'/><port id='q' "
                  "component='n'/><media id='m' src='s/x.lua'/><media "
                  "id='n'/></body></ncl>"));
  d.tick (0);
  char a[4096], b[4096];
  getcwd (a, sizeof a);
  CHECK (d.act ("m", Event::STOP) > 0);
  getcwd (b, sizeof b);
  CHECK (string (a) == b);
}
'''
