ID = 'c22-release-by-state'
PROP = 'C22'
NEEDS = 'a key other than a letter that is held while another is pressed'
BREAKS = 'the release of the first key is not passed on'
FLAGS = '-I$R/src'
EDITS = [
    ('src/ginga.cpp', r"""  bool status = GINGA->sendKey (""",
     r"""  static guint held = 0; // ignore the repetition of keys
  bool press = g_str_equal ((const char *) type, "press");
  if (press ? held == e->keyval : held != e->keyval)
    return TRUE;
  held = press ? e->keyval : 0;
  bool status = GINGA->sendKey ("""),
]
DEMO = open('tools/demo/player.inc').read() + r'''
void
run ()
{
  // A selection lasts as long as its key is held.
  string d = "<ncl><head><connectorBase><causalConnector id='c'>"
             "<simpleCondition role='onSelection' key='RED'/>"
             "<simpleAction role='set' value='1'/></causalConnector>"
             "<causalConnector id='e'><simpleCondition role='onEndSelection'"
             " key='RED'/><simpleAction role='set' value='2'/>"
             "</causalConnector></connectorBase></head><body>"
             "<port id='p' component='m'/><media id='m'>"
             "<property name='x' value='0'/></media>"
             "<link xconnector='c'><bind role='onSelection' component='m'/>"
             "<bind role='set' component='m' interface='x'/></link>"
             "<link xconnector='e'><bind role='onEndSelection'"
             " component='m'/>"
             "<bind role='set' component='m' interface='x'/></link>"
             "</body></ncl>";
  string a = put ("a.ncl", d), x1, x2;
  frame (500);
  key (GDK_KEY_F1, true);
  then ([&] () { x1 = obj ("m")->getProperty ("x"); });
  frame (500);
  key (GDK_KEY_F2, true);
  key (GDK_KEY_F1, false);
  frame (500);
  then ([&] () { x2 = obj ("m")->getProperty ("x"); });
  key (GDK_KEY_Escape, true);
  CHECK (play ({ a }) == 0);
  CHECK (x1 == "1");
  CHECK (x2 == "2");
}
'''
