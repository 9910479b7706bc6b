ID = "c04-anchor-begin-offset"
PROP = "C04"
NEEDS = "a media started through an anchor that begins later than zero, and a second anchor that begins after it"
BREAKS = "the other anchors of a media started through an anchor keep their absolute times"
EDITS = [("lib/Media.cpp", """                        else if (it->second >= begin)
                          {
                            it->second = it->second - begin;""",
"""                        else if (it->second >= begin)
                          {
                            if (it->first.transition == Event::STOP)
                              it->second = it->second - begin;""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='m' interface='a'/>"
                  "<port id='q' component='n'/><media id='n'/>"
                  "<media id='m'><area id='a' begin='4s'/>"
                  "<area id='b' begin='6s'/></media></body></ncl>"));
  d.tick (0);
  CHECK (d.st ("m", "a") == 'O');
  CHECK (d.st ("m", "b") == 'S');
  d.tick (1000);
  CHECK (d.st ("m", "b") == 'S');
  d.tick (1500);
  CHECK (d.st ("m", "b") == 'O');
}
'''
