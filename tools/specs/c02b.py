ID = "c02-start-only-parent"
PROP = "C02"
NEEDS = "a link that starts a component two sleeping contexts deep"
BREAKS = "only the innermost sleeping context is started, so it is presented inside a sleeping one"
EDITS = [("lib/Context.cpp", """          if (instanceof (Context *, _parent) && _parent->isSleeping ())
            {
              _parent->getLambda ()->setParameter ("fromport", "true");
              _parent->getLambda ()->transition (Event::START);
            }
""", """          evt->getParameter ("fromport", &param_test);
          if (param_test == "" && instanceof (Context *, _parent)
              && _parent->isSleeping ())
            {
              _parent->getLambda ()->setParameter ("fromport", "true");
              _parent->getLambda ()->transition (Event::START);
            }
""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='q' component='n'/><media id='n'/>"
                  "<context id='c'><context id='e'><media id='m'/></context>"
                  "</context></body></ncl>"));
  d.ticks (2, 100);
  CHECK (d.st ("c") == 'S');
  d.act ("m", Event::START);
  CHECK (d.st ("m") == 'O');
  CHECK (d.st ("e") == 'O');
  CHECK (d.st ("c") == 'O');
}
'''
