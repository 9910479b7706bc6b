ID = "c01-abort-of-paused"
PROP = "C01"
NEEDS = "an abort action of a link applied to an event that is paused at that moment"
BREAKS = "aborting a paused event is refused and leaves it paused"
EDITS = [("lib/Event.cpp", """    case Event::STOP: // fall through
    case Event::ABORT:
      if (curr == Event::SLEEPING)
        return false;
      next = Event::SLEEPING;
      break;""", """    case Event::STOP:
      if (curr == Event::SLEEPING)
        return false;
      next = Event::SLEEPING;
      break;
    case Event::ABORT:
      if (curr != Event::OCCURRING)
        return false;
      next = Event::SLEEPING;
      break;""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='m'/>"
                  "<port id='q' component='n'/>"
                  "<media id='m'><area id='a' begin='1s'/></media>"
                  "<media id='n'/></body></ncl>"));
  d.tick (0);
  d.tick (2000);
  CHECK (d.st ("m", "a") == 'O');
  d.act ("m", Event::PAUSE, "a");
  CHECK (d.st ("m", "a") == 'P');
  CHECK (d.act ("m", Event::ABORT, "a") == 1);
  CHECK (d.st ("m", "a") == 'S');
  d.act ("m", Event::PAUSE);
  CHECK (d.st ("m") == 'P');
  d.act ("m", Event::ABORT);
  CHECK (d.st ("m") == 'S');
}
'''
