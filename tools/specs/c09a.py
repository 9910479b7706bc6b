ID = "c09-reference-last-dot"
PROP = "C09"
NEEDS = "an attribution whose value refers to a property with a dot in its name"
BREAKS = "references to properties with dotted names are not resolved"
EDITS = [("lib/Document.cpp", """(i = ref.find ('.')) == string::npos""",
"""(i = ref.rfind ('.')) == string::npos""")]
DEMO = r'''
void
run ()
{
  Demo d;
  CHECK (d.start (
      "<ncl><body><port id='p' component='m'/>"
      "<media id='g' type='application/x-ginga-settings'>"
      "<property name='my.own.var' value='7'/></media>"
      "<media id='m'><property name='x' value='0'/></media></body></ncl>"));
  d.tick (0);
  CHECK (d.act ("m", Event::START, "x", 'A', "$g.my.own.var") == 1);
  CHECK (d.prop ("m", "x") == "7");
}
'''
