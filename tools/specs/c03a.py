ID = "c03-abort-keeps-count"
PROP = "C03"
NEEDS = "a nested context aborted by a link while another child goes on and later ends"
BREAKS = "an aborted context is still counted by its parent, which then never ends"
EDITS = [("lib/Context.cpp", """          TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                 evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
          Object::doStop ();
          break;""", """          TRACE ("abort %s at %" GINGA_TIME_FORMAT,
                 evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
          if (_parent != nullptr && instanceof (Context *, _parent))
            cast (Context *, _parent)->incAwakeChildren ();
          Object::doStop ();
          break;""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='c'/>"
                  "<port id='q' component='n'/>"
                  "<media id='n'><property name='explicitDur' value='2s'/>"
                  "</media><context id='c'><port id='p1' component='m'/>"
                  "<media id='m'/></context></body></ncl>"));
  d.ticks (3, 100);
  d.act ("c", Event::ABORT);
  CHECK (d.st ("c") == 'S');
  d.ticks (30, 100);
  CHECK (d.f->getState () == GINGA_STATE_STOPPED);
}
'''
