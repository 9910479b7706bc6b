ID = 'c17-resize-while-stopped'
PROP = 'C17'
NEEDS = 'a resize while no document is running'
BREAKS = 'the new size is not taken: options and the next session keep the old one'
EDITS = [
    ('lib/Formatter.cpp', r"""  g_assert (width > 0 && height > 0);
  _opts.width = width;
  _opts.height = height;

  // This must be the first check.
  if (_state != GINGA_STATE_PLAYING)
    return;

""",
     r"""  g_assert (width > 0 && height > 0);

  // This must be the first check.
  if (_state != GINGA_STATE_PLAYING)
    return;

  _opts.width = width;
  _opts.height = height;

"""),
]
DEMO = r'''
void
run ()
{
  Demo d;
  d.f->resize (300, 200);
  CHECK (d.f->getOptionInt ("width") == 300);
  CHECK (d.f->getOptions ()->height == 200);
}
'''
