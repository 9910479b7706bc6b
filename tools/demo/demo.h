// Drives one formatter; every file lives in a scratch directory.
#ifndef DEMO_H
#define DEMO_H
#include "aux-ginga.h"
#include "Context.h"
#include "Document.h"
#include "Event.h"
#include "Formatter.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Object.h"
#include "Parser.h"
#include "Player.h"
#include "Switch.h"
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <unistd.h>
using namespace std;
using namespace ginga;

static int failures = 0;
#define CHECK(c)                                                           \
  do                                                                       \
    {                                                                      \
      if (!(c))                                                            \
        {                                                                  \
          printf ("line %d: %s does not hold\n", __LINE__, #c);            \
          failures++;                                                      \
        }                                                                  \
    }                                                                      \
  while (0)

struct Demo
{
  Formatter *f;
  uint64_t total, frame;
  string path;
  Demo (int w = 800, int h = 600)
  {
    GingaOptions o;
    o.width = w;
    o.height = h;
    o.debug = o.webservices = o.experimental = o.opengl = false;
    o.background = "";
    f = new Formatter (&o);
    total = frame = 0;
    path = string (getenv ("DEMO_TMP")) + "/main.ncl";
  }
  ~Demo () { delete f; }
  void write (const string &name, const string &text)
  {
    FILE *p = fopen ((string (getenv ("DEMO_TMP")) + "/" + name).c_str (), "w");
    fwrite (text.data (), 1, text.size (), p);
    fclose (p);
  }
  bool start (const string &text)
  {
    write ("main.ncl", text);
    string err;
    bool r = f->start (path, &err);
    if (!r)
      fprintf (stderr, "start: %s\n", err.c_str ());
    total = frame = 0;
    return r;
  }
  bool tick (uint64_t ms)
  {
    total += ms * 1000000;
    return f->sendTick (total, ms * 1000000, frame++);
  }
  void ticks (int n, uint64_t ms)
  {
    for (int i = 0; i < n; i++)
      tick (ms);
  }
  bool key (const string &k, bool press = true) { return f->sendKey (k, press); }
  Object *obj (const string &id)
  {
    Document *d = f->getDocument ();
    return d ? d->getObjectByIdOrAlias (id) : nullptr;
  }
  Event *ev (const string &id, const string &i = "@lambda",
             char type = 'P', const string &k = "")
  {
    Object *o = obj (id);
    if (!o)
      return nullptr;
    return type == 'P' ? o->getPresentationEvent (i)
           : type == 'A' ? o->getAttributionEvent (i)
                         : o->getSelectionEvent (i);
  }
  // 'O'ccurring, 'P'aused, 'S'leeping or '-' (no such event).
  char st (const string &id, const string &i = "@lambda", char type = 'P')
  {
    Event *e = ev (id, i, type);
    return e ? "OPS"[e->getState ()] : '-';
  }
  string prop (const string &id, const string &n)
  {
    Object *o = obj (id);
    return o ? o->getProperty (n) : "?";
  }
  int act (const string &id, Event::Transition t, const string &i = "@lambda",
           char type = 'P', const string &v = "")
  {
    Event *e = ev (id, i, type);
    return e ? f->getDocument ()->evalAction (e, t, v) : -1;
  }
  // Milliseconds, or -1.
  long time (const string &id)
  {
    Object *o = obj (id);
    return o && GINGA_TIME_IS_VALID (o->getTime ())
               ? (long) (o->getTime () / 1000000) : -1;
  }
};
void run ();
int main ()
{
  run ();
  printf (failures ? "FAILED\n" : "ok\n");
  return failures ? 1 : 0;
}
#endif
