ID = "c04-duration-rounds"
PROP = "C04"
NEEDS = "a tick that lands exactly on the duration of a media"
BREAKS = "a media ends one tick early when the clock is exactly at its duration"
EDITS = [("lib/Media.cpp", """          && _time > dur))""", """          && _time >= dur && dur > 0))""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='m'/>"
                  "<port id='q' component='n'/><media id='n'/>"
                  "<media id='m'><property name='explicitDur' value='2s'/>"
                  "</media></body></ncl>"));
  d.tick (0);
  d.tick (1000);
  d.tick (1000);
  CHECK (d.time ("m") == 2000);
  CHECK (d.st ("m") == 'O');
  d.tick (1);
  CHECK (d.st ("m") == 'S');
}
'''
