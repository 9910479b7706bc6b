ID = 'c24-time-of-each-window'
PROP = 'C24'
NEEDS = 'a presentation shown on the full screen while the main window is drawn too'
BREAKS = 'the time of the presentation runs twice as fast'
FLAGS = '-DG_DISABLE_CAST_CHECKS -I$R/src -I$R/src/gingagui'
EDITS = [
    ('src/gingagui/Draw.cpp', r"""#include <cairo.h>
""", r"""#include <cairo.h>
#include <map>
"""),
    ('src/gingagui/Draw.cpp', r"""  static guint64 last;
""", r"""  static std::map<GtkWidget *, guint64> lasts; // each has its own clock
"""),
    ('src/gingagui/Draw.cpp', r"""      last = time;
      playing""", r"""      lasts.clear ();
      playing"""),
    ('src/gingagui/Draw.cpp', r"""  if (!GINGA->sendTick (time - first, time - last, frame))
""", r"""  if (lasts.count (widget) == 0)
    lasts[widget] = time;
  if (!GINGA->sendTick (time - first, time - lasts[widget], frame))
"""),
    ('src/gingagui/Draw.cpp', r"""  last = time;

queue""", r"""  lasts[widget] = time;

queue"""),
]
DEMO = open('tools/demo/windows.inc').read() + r'''
void
run ()
{
  open_program ("<ncl><body><port id='p' component='m'/>"
         "<media id='m'><property name='explicitDur' value='9s'/></media>"
         "</body></ncl>");
  frame (gingaView, 1000);
  create_fullscreen_window ();
  for (int i = 0; i < 9; i++) // 900 ms
    {
      frame (fullscreenWindow, 50000);
      frame (gingaView, 50000);
    }
  Document *d = G ()->getDocument ();
  CHECK (d && d->getObjectById ("m")->getTime () == 900 * GINGA_MSECOND);
}
'''
