ID = 'c22-escape-leaves-twice'
PROP = 'C22'
NEEDS = 'Escape pressed in one file and released in the next one'
BREAKS = 'releasing Escape leaves the second file too'
FLAGS = '-I$R/src'
EDITS = [
    ('src/ginga.cpp', r"""    case GDK_KEY_Escape: // quit
      if (g_str_equal ((const char *) type, "release"))
        return TRUE;
""",
     r"""    case GDK_KEY_Escape: // quit
      if (GINGA->getState () == GINGA_STATE_STOPPED)
        return TRUE;
"""),
]
DEMO = open('tools/demo/player.inc').read() + r'''
void
run ()
{
  string d = "<ncl><body><port id='p' component='m'/><media id='m'/>"
             "</body></ncl>";
  string a = put ("a.ncl", d), b = put ("b.ncl", d);
  bool second = false;
  frame (10000);
  key (GDK_KEY_Escape, true);
  key (GDK_KEY_Escape, false);
  frame (10000);
  then ([&] () { second = mains == 2 && obj ("m") != nullptr; });
  key (GDK_KEY_Escape, true);
  CHECK (play ({ a, b }) == 0);
  CHECK (mains == 2);
  CHECK (second);
}
'''
