ID = 'c22-first-failure-only'
PROP = 'C22'
NEEDS = 'several files of which one cannot be presented'
BREAKS = 'the exit status does not count the files that failed'
FLAGS = '-I$R/src'
EDITS = [
    ('src/ginga.cpp', r"""            error ("%s", errmsg.c_str ());
          fail_count++;
          continue;
""",
     r"""            error ("%s", errmsg.c_str ());
          fail_count = i;
          continue;
"""),
]
DEMO = open('tools/demo/player.inc').read() + r'''
void
run ()
{
  string d = "<ncl><body><port id='p' component='m'/><media id='m'/>"
             "</body></ncl>";
  string a = put ("a.ncl", d), b = put ("b.ncl", "no");
  frame (10000);
  key (GDK_KEY_Escape, true);
  CHECK (play ({ a, b }) == 1);
  CHECK (mains == 1);
}
'''
