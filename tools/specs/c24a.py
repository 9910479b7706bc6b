ID = 'c24-size-while-stopped'
PROP = 'C24'
NEEDS = 'the full screen left while nothing is presented, and then a file presented'
BREAKS = 'the presentation has the size of the full screen in the main window'
FLAGS = '-DG_DISABLE_CAST_CHECKS -I$R/src -I$R/src/gingagui'
EDITS = [
    ('src/gingagui/FullscreenWindow.cpp',
     r"""  GINGA->resize (presentationAttributes.resolutionWidth,
                 presentationAttributes.resolutionHeight);
""", r"""  if (GINGA->getState () == GINGA_STATE_PLAYING)
    GINGA->resize (presentationAttributes.resolutionWidth,
                   presentationAttributes.resolutionHeight);
"""),
]
DEMO = open('tools/demo/windows.inc').read() + r'''
void
run ()
{
  open_program ("");
  create_fullscreen_window ();
  CHECK (GINGA->getOptionInt ("width") == 1920);
  destroy_fullscreen_window ();
  CHECK (GINGA->getOptionInt ("width") == 800);
  CHECK (GINGA->getOptionInt ("height") == 600);
}
'''
