ID = "c10-focus-on-paused"
PROP = "C10"
NEEDS = "the focus being chosen again while the media with the lowest index is paused"
BREAKS = "a paused media is given the focus"
EDITS = [("lib/MediaSettings.cpp", """          if (media->isOccurring ()
""", """          if (!media->isSleeping ()
""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start (
      "<ncl><body><port id='p' component='m'/><port id='q' component='n'/>"
      "<media id='g' type='application/x-ginga-settings'/>"
      "<media id='m'><property name='focusIndex' value='1'/></media>"
      "<media id='n'><property name='focusIndex' value='2'/></media>"
      "<media id='o'><property name='focusIndex' value='3'/></media>"
      "</body></ncl>"));
  d.ticks (3, 100);
  CHECK (d.prop ("__settings__", "service.currentFocus") == "1");
  d.act ("m", Event::PAUSE);
  d.act ("o", Event::START);
  d.ticks (2, 100);
  CHECK (d.prop ("__settings__", "service.currentFocus") == "2");
}
'''
