ID = "c07-switchport-any-rule"
PROP = "C07"
NEEDS = "a switch started through a switchPort that maps only some of the components, with a rule of an unmapped component holding first"
BREAKS = "the search of a component stops at the first rule that holds even if the switchPort does not map its component"
EDITS = [("lib/Switch.cpp", """              if (selected_evt == nullptr)
                continue;
""", """              if (selected_evt == nullptr)
                {
                  if (_rules.size () > 2 && _doc->evalPredicate (pred))
                    return false;
                  continue;
                }
""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start (
      "<ncl><head><ruleBase><rule id='r1' var='x' comparator='eq' value='1'/>"
      "<rule id='r2' var='y' comparator='eq' value='1'/>"
      "<rule id='r3' var='z' comparator='eq' value='1'/>"
      "</ruleBase></head><body><port id='p' component='s' interface='q'/>"
      "<media id='g' type='application/x-ginga-settings'>"
      "<property name='x' value='1'/><property name='y' value='1'/></media>"
      "<switch id='s'><switchPort id='q'><mapping component='b'/>"
      "<mapping component='c'/></switchPort>"
      "<bindRule rule='r1' constituent='a'/>"
      "<bindRule rule='r2' constituent='b'/>"
      "<bindRule rule='r3' constituent='c'/>"
      "<media id='a'/><media id='b'/><media id='c'/></switch></body></ncl>"));
  d.ticks (2, 100);
  CHECK (d.st ("a") == 'S');
  CHECK (d.st ("b") == 'O');
}
'''
