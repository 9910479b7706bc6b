ID = 'c24-ctrl-toggles'
PROP = 'C24'
NEEDS = 'the control key held until the keyboard repeats it, or both control keys'
BREAKS = 'letters pressed later are taken for shortcuts and kept from the presentation'
FLAGS = '-DG_DISABLE_CAST_CHECKS -I$R/src -I$R/src/gingagui'
EDITS = [
    ('src/gingagui/MainWindow.cpp',
     r"""      if (g_strcmp0 ((const char *) type, "press") == 0)
        isCrtlModifierActive = TRUE;
      else
        isCrtlModifierActive = FALSE;
""", r"""      isCrtlModifierActive = !isCrtlModifierActive;
"""),
]
DEMO = open('tools/demo/windows.inc').read() + r'''
void
run ()
{
  open_program ("<ncl><head><connectorBase><causalConnector id='c'>"
         "<simpleCondition role='onSelection' key='f'/>"
         "<simpleAction role='set' value='1'/></causalConnector>"
         "</connectorBase></head><body><port id='p' component='m'/>"
         "<media id='m'><property name='x' value='0'/></media>"
         "<link xconnector='c'><bind role='onSelection' component='m'/>"
         "<bind role='set' component='m' interface='x'/></link>"
         "</body></ncl>");
  frame (gingaView, 1000);
  key (GDK_KEY_Control_L, true);
  key (GDK_KEY_Control_L, true); // repeated
  key (GDK_KEY_Control_L, false);
  key (GDK_KEY_f, true);
  key (GDK_KEY_f, false);
  CHECK (prop ("m", "x") == "1");
  CHECK (made == 0);
}
'''
