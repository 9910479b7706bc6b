ID = 'c23-in-place'
PROP = 'C23'
NEEDS = 'a disk that gets full, or a crash, while the settings are written'
BREAKS = 'the settings and the history of before are lost'
FLAGS = '-DG_DISABLE_CAST_CHECKS -I$R/src -I$R/src/gingagui'
EDITS = [
    ('src/gingagui/SaveLoadSettings.cpp',
     r"""  g_key_file_save_to_file (key_file, file_path, &error);
""", r"""  gsize length;
  gchar *text = g_key_file_to_data (key_file, &length, &error);
  FILE *file = g_fopen (file_path, "w"); // keeps links and permissions
  if (file != NULL)
    {
      fwrite (text, 1, length, file);
      fclose (file);
    }
  g_free (text);
"""),
]
DEMO = open('tools/demo/settings.inc').read() + r'''
void
run ()
{
  put_all ("7", 1, { "/a.ncl" });
  save_settings ();
  put_all ("7", 2, { "/b.ncl", "/a.ncl" });
  room (20);
  save_settings ();
  room (RLIM_INFINITY);
  again ();
  CHECK (strcmp (gingaID, "7") == 0);
  CHECK (presentationAttributes.aspectRatio == 1);
  CHECK (rows.size () == 1 && rows[0] == "/a.ncl");
}
'''
