ID = "c02-stop-skips-paused"
PROP = "C02"
NEEDS = "a child of a context paused on its own when the context stops"
BREAKS = "the paused child outlives its context"
EDITS = [("lib/Context.cpp", """              Event *lambda = child->getLambda ();
              g_assert_nonnull (lambda);
              lambda->transition (Event::STOP);
            }
          break;""", """              Event *lambda = child->getLambda ();
              g_assert_nonnull (lambda);
              if (child->isOccurring () || _parent == nullptr)
                lambda->transition (Event::STOP);
            }
          break;""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='c'/>"
                  "<port id='q' component='n'/><media id='n'/>"
                  "<context id='c'><port id='p1' component='m'/>"
                  "<port id='p2' component='k'/>"
                  "<media id='m'/><media id='k'/></context></body></ncl>"));
  d.ticks (3, 100);
  CHECK (d.st ("m") == 'O');
  d.act ("m", Event::PAUSE);
  CHECK (d.st ("m") == 'P');
  d.act ("c", Event::STOP);
  CHECK (d.st ("c") == 'S');
  CHECK (d.st ("k") == 'S');
  CHECK (d.st ("m") == 'S');
}
'''
