ID = "c05-delay-accumulates"
PROP = "C05"
NEEDS = "a delayed link triggered again while its first action is pending"
BREAKS = "an action already pending is not scheduled a second time"
EDITS = [("lib/Object.cpp",
          """  _delayed.push_back (std::make_pair (act, _time + delay));""",
          """  Time when = _time + delay;
  for (auto &pending : _delayed)
    if (pending.first.event == event && pending.first.value == value
        && pending.first.transition == transition
        && event->getType () == Event::ATTRIBUTION && delay > 0
        && pending.second != when)
      return; // already scheduled
  _delayed.push_back (std::make_pair (act, when));""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start (
      "<ncl><head><connectorBase><causalConnector id='k'>"
      "<simpleCondition role='onSelection' key='RED'/>"
      "<simpleAction role='set' value='go' delay='2s'/>"
      "</causalConnector><causalConnector id='z'>"
      "<simpleCondition role='onEndAttribution'/>"
      "<simpleAction role='set' value='back'/>"
      "</causalConnector></connectorBase></head>"
      "<body><port id='p' component='m'/>"
      "<media id='m'><property name='x' value='0'/>"
      "</media>"
      "<link xconnector='k'><bind role='onSelection' component='m'/>"
      "<bind role='set' component='m' interface='x'/></link>"
      "</body></ncl>"));
  d.tick (0);
  d.key ("RED");
  d.key ("RED", false);
  d.tick (1000);
  d.key ("RED");
  d.key ("RED", false);
  d.tick (1000);
  CHECK (d.prop ("m", "x") == "go");
  d.obj ("m")->setProperty ("x", "other");
  d.tick (1000);
  CHECK (d.prop ("m", "x") == "go");
}
'''
