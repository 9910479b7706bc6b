ID = "c01-refused-parameters"
PROP = "C01"
NEEDS = "a second attribution to the same property refused while a first, timed one is still occurring"
BREAKS = "a refused start of an attribution event is applied to the property all the same"
EDITS = [("lib/Event.cpp", """    case Event::START:
      if (curr == Event::OCCURRING)
        return false;
      next = Event::OCCURRING;
      break;""", """    case Event::START:
      if (curr == Event::OCCURRING && _type != Event::ATTRIBUTION)
        return false;
      next = Event::OCCURRING;
      break;""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='m'/>"
                  "<media id='m'><property name='x' value='0'/></media>"
                  "</body></ncl>"));
  d.tick (0);
  Event *e = d.ev ("m", "x", 'A');
  CHECK (e != nullptr);
  Action a;
  a.event = e;
  a.transition = Event::START;
  a.predicate = nullptr;
  a.value = "1";
  a.duration = "5s";
  CHECK (d.f->getDocument ()->evalAction (a) == 1);
  CHECK (d.st ("m", "x", 'A') == 'O');
  a.value = "2";
  CHECK (d.f->getDocument ()->evalAction (a) == 0);
  CHECK (d.prop ("m", "x") == "1");
}
'''
