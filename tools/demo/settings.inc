// The settings of the graphical program with a list box of its own.
#include <errno.h>
#include <signal.h>
#include <string.h>
#include <sys/resource.h>
#include <vector>
#include "gingagui.h"
static std::vector<string> rows;
static GtkWidget *some = (GtkWidget *) &rows;
#define g_get_user_config_dir() ((const gchar *) getenv ("DEMO_TMP"))
#define gtk_list_box_new() some
#define gtk_widget_set_halign(w, a) ((void) 0)
#define gtk_container_get_children(c) children_now ()
#define gtk_bin_get_child(b) ((GtkWidget *) (b))
#define gtk_label_get_text(l) ((const gchar *) (l))
#define gtk_label_new(t) ((GtkWidget *) g_strdup (t))
#define gtk_list_box_insert(b, l, i) rows.push_back ((const char *) (l))
static GList *
children_now ()
{
  GList *l = NULL;
  for (size_t i = 0; i < rows.size (); i++)
    l = g_list_append (l, (gpointer) rows[i].c_str ());
  return l;
}
#include "SaveLoadSettings.cpp"
gchar *gingaID = NULL;
PresentationAttributes presentationAttributes;
GtkWidget *historicBox = NULL;

static void
put_all (const char *id, guint aspect, std::vector<string> history)
{
  gingaID = (gchar *) id;
  presentationAttributes.aspectRatio = aspect;
  presentationAttributes.frameRate = 30;
  presentationAttributes.guiTheme = 1;
  historicBox = some;
  rows = history;
}

// What another start of the program finds.
static void
again ()
{
  put_all ("none", 0, {});
  historicBox = NULL;
  load_settings ();
}

// Files cannot grow beyond so many bytes (the disk is full).
static void
room (rlim_t bytes)
{
  struct rlimit r;
  getrlimit (RLIMIT_FSIZE, &r);
  r.rlim_cur = bytes;
  signal (SIGXFSZ, SIG_IGN);
  setrlimit (RLIMIT_FSIZE, &r);
}
