ID = 'c23-saved-once'
PROP = 'C23'
NEEDS = 'a save that fails, and the same settings saved again'
BREAKS = 'the settings are taken for saved though they are not'
FLAGS = '-DG_DISABLE_CAST_CHECKS -I$R/src -I$R/src/gingagui'
EDITS = [
    ('src/gingagui/SaveLoadSettings.cpp',
     r"""  g_key_file_save_to_file (key_file, file_path, &error);
""", r"""  static gchar *saved = NULL; // spare the disk if nothing has changed
  gchar *text = g_key_file_to_data (key_file, NULL, NULL);
  if (g_strcmp0 (text, saved) != 0)
    g_key_file_save_to_file (key_file, file_path, &error);
  g_free (saved);
  saved = text;
"""),
]
DEMO = open('tools/demo/settings.inc').read() + r'''
void
run ()
{
  put_all ("7", 1, { "/a.ncl" });
  save_settings ();
  put_all ("7", 2, { "/b.ncl", "/a.ncl" });
  room (10);
  save_settings ();
  room (RLIM_INFINITY);
  save_settings ();
  again ();
  CHECK (presentationAttributes.aspectRatio == 2);
  CHECK (rows.size () == 2 && rows[0] == "/b.ncl");
}
'''
