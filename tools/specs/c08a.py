ID = "c08-switch-not-paused"
PROP = "C08"
NEEDS = "a switch nested in a context that is paused while the switch presents a component"
BREAKS = "the component a switch selected goes on while the enclosing context is paused"
EDITS = [("lib/Context.cpp", """              Event *lambda = child->getLambda ();
              g_assert_nonnull (lambda);
              lambda->transition (Event::PAUSE);""", """              Event *lambda = child->getLambda ();
              g_assert_nonnull (lambda);
              if (child->getDelayedActions ()->empty ()
                  && !instanceof (Media *, child)
                  && !instanceof (Context *, child))
                continue;
              lambda->transition (Event::PAUSE);""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start (
      "<ncl><head><ruleBase><rule id='r1' var='x' comparator='eq' value='1'/>"
      "</ruleBase></head><body><port id='p' component='c'/>"
      "<port id='q' component='o'/><media id='o'/>"
      "<media id='g' type='application/x-ginga-settings'>"
      "<property name='x' value='1'/></media>"
      "<context id='c'><port id='p1' component='s'/>"
      "<switch id='s'><bindRule rule='r1' constituent='a'/>"
      "<media id='a'/></switch></context></body></ncl>"));
  d.ticks (5, 100);
  CHECK (d.st ("a") == 'O');
  d.act ("c", Event::PAUSE);
  CHECK (d.st ("s") == 'P');
  CHECK (d.st ("a") == 'P');
}
'''
