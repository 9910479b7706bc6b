// The player program with a window system of its own.
#define G_DISABLE_CAST_CHECKS 1
#include <functional>
#include <map>
#include <signal.h>
#include <string.h>
#include <vector>
#include <gtk/gtk.h>
static std::vector<std::function<void ()> > script;
static size_t script_pos;
static bool quit_asked;
static int mains; // times the main loop was entered
static int exit_code;
static std::map<string, GCallback> handlers;
static std::map<string, gpointer> datas;
static GtkTickCallback ticker;
static gpointer ticker_data;
static gint64 now_us = 1000, counter = -1;
static char window[64];
static GtkWidget *W = (GtkWidget *) window;
static int draws, fullscreens;

#define gtk_init(a, b) ((void) 0)
#define gtk_window_new(t) W
#define gtk_window_set_title(...) ((void) 0)
#define gtk_window_set_default_size(...) ((void) 0)
#define gtk_window_fullscreen(w) ((void) fullscreens++)
#define gtk_window_unfullscreen(w) ((void) fullscreens--)
#define gtk_gl_area_new() W
#define gtk_container_add(...) ((void) 0)
#define gtk_widget_set_app_paintable(...) ((void) 0)
#define gtk_widget_show_all(w) ((void) 0)
#define gtk_widget_queue_draw(w) ((void) draws++)
#define gdk_frame_clock_get_frame_time(c) (now_us)
#define gdk_frame_clock_get_frame_counter(c) (counter)
#undef gtk_widget_add_tick_callback
#define gtk_widget_add_tick_callback(w, f, d, n) (ticker = (f), ticker_data = (d))
#define g_signal_connect_data(i, s, f, d, n, l) \
  (handlers[s] = (f), datas[s] = (gpointer) (d))
#define gtk_main_quit() ((void) (quit_asked = true))
#define _exit(c) throw (int) (c)
static void
sim_gtk_main ()
{
  mains++;
  quit_asked = false;
  while (!quit_asked)
    {
      if (script_pos >= script.size ())
        throw 99;
      script[script_pos++]();
    }
}
#define gtk_main() sim_gtk_main ()
#define main ginga_main
#include "ginga.cpp"
#undef main
#undef _exit

static Formatter *
G ()
{
  return (Formatter *) GINGA;
}

static Object *
obj (const char *id)
{
  Document *d = G ()->getDocument ();
  return d ? d->getObjectById (id) : nullptr;
}

static void
frame (gint64 us)
{
  script.push_back ([us] () {
    now_us += us;
    counter++;
    if (ticker && !ticker (W, (GdkFrameClock *) window, ticker_data))
      ticker = nullptr;
  });
}

static void
key_now (guint keyval, bool press)
{
  GdkEventKey e;
  memset (&e, 0, sizeof e);
  e.keyval = keyval;
  const char *s = press ? "key-press-event" : "key-release-event";
  ((gboolean (*) (GtkWidget *, GdkEventKey *, gpointer)) handlers[s]) (
      W, &e, datas[s]);
}

static void
key (guint keyval, bool press)
{
  script.push_back ([=] () { key_now (keyval, press); });
}

static void
then (std::function<void ()> f)
{
  script.push_back (f);
}

static string
put (const char *name, const string &text)
{
  string p = string (getenv ("DEMO_TMP")) + "/" + name;
  FILE *f = fopen (p.c_str (), "w");
  fwrite (text.data (), 1, text.size (), f);
  fclose (f);
  return p;
}

static int
play (std::vector<string> args)
{
  std::vector<char *> v;
  v.push_back (strdup ("ginga"));
  for (auto &a : args)
    v.push_back (strdup (a.c_str ()));
  v.push_back (nullptr);
  try
    {
      return ginga_main ((int) args.size () + 1, v.data ());
    }
  catch (int c)
    {
      return c;
    }
}
