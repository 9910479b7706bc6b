ID = 'c22-time-of-drawn-frames'
PROP = 'C22'
NEEDS = 'a frame whose time does not differ from that of the one before, ' \
    'then another'
BREAKS = 'time is lost: objects fall behind the clock'
FLAGS = '-I$R/src'
EDITS = [
    ('src/ginga.cpp', r"""  time = (guint64) (gdk_frame_clock_get_frame_time (frame_clock) * 1000);
  frame = (guint64) gdk_frame_clock_get_frame_counter (frame_clock);
""",
     r"""  time = (guint64) (gdk_frame_clock_get_frame_time (frame_clock) / 1000
                    * 1000000);
  if (time < last)
    time = last;
  frame = (guint64) gdk_frame_clock_get_frame_counter (frame_clock);
"""),
]
DEMO = open('tools/demo/player.inc').read() + r'''
void
run ()
{
  string d = "<ncl><body><port id='p' component='m'/><media id='m'/>"
             "</body></ncl>";
  string a = put ("a.ncl", d);
  Time t = 0;
  frame (500);
  frame (700);
  frame (16100);
  then ([&] () { t = obj ("m")->getTime (); });
  key (GDK_KEY_Escape, true);
  CHECK (play ({ a }) == 0);
  CHECK (t == 16800000);
}
'''
