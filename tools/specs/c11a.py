ID = "c11-eos-survives"
PROP = "C11"
NEEDS = "an end of stream requested and the formatter stopped by the host before the next event"
BREAKS = "an end of stream left over from the previous session ends the next one"
EDITS = [("lib/Formatter.cpp", """  _docPath = file;
  _eos = false;
""", """  _docPath = file;
""")]
DEMO = r'''
void
run ()
{
  Demo d;
  const char *ncl = "<ncl><body><port id='p' component='m'/><media id='m'/>"
                    "</body></ncl>";
  CHECK (d.start (ncl));
  d.tick (0);
  d.f->setEOS (true);
  CHECK (d.f->stop ());
  CHECK (d.start (ncl));
  d.ticks (3, 100);
  CHECK (d.f->getState () == GINGA_STATE_PLAYING);
}
'''
