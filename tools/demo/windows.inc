// The windows of the graphical program over a toolkit that does nothing.
#include <map>
#include <string.h>
#include <gtk/gtk.h>
static gint64 now_us = 1000, counter;
static int destroyed, made;
static char a_widget[64];
#undef gtk_widget_add_tick_callback
#define gtk_widget_destroy(w) ((void) destroyed++)
#define gtk_widget_queue_draw(w) ((void) 0)
#define gtk_window_new(t) (made++, (GtkWidget *) a_widget)
#define gtk_drawing_area_new() ((GtkWidget *) a_widget)
#define gtk_window_set_title(...) ((void) 0)
#define gtk_window_set_default_size(...) ((void) 0)
#define gtk_window_set_position(...) ((void) 0)
#define gtk_window_fullscreen(...) ((void) 0)
#define gtk_widget_add_tick_callback(...) ((void) 0)
#define gtk_container_set_border_width(...) ((void) 0)
#define gtk_container_add(...) ((void) 0)
#define gtk_widget_set_app_paintable(...) ((void) 0)
#define gtk_widget_set_size_request(...) ((void) 0)
#define gtk_widget_show_all(...) ((void) 0)
#define gtk_widget_get_allocated_width(w) 800
#define gtk_widget_get_allocated_height(w) 600
#define gdk_display_get_default() ((GdkDisplay *) a_widget)
#define gdk_display_get_monitor_at_window(d, w) ((GdkMonitor *) a_widget)
#define gdk_monitor_get_geometry(m, r)                                     \
  ((r)->x = (r)->y = 0, (r)->width = 1920, (r)->height = 1080)
#define gdk_frame_clock_get_frame_time(c) (now_us)
#define gdk_frame_clock_get_frame_counter(c) (counter)
#define g_signal_connect_data(i, s, f, d, n, l) ((void) (f))
#define GINGABINDIR "/nowhere"
#define GINGADATADIR "/nowhere"
#ifndef PACKAGE_BUGREPORT
#define PACKAGE_BUGREPORT ""
#endif
#ifndef PACKAGE_URL
#define PACKAGE_URL ""
#endif
#define g_log_default_handler gui_log_handler
#define main gui_main
#include "AboutWindow.cpp"
#include "BigPictureWindow.cpp"
#include "Draw.cpp"
#include "FullscreenWindow.cpp"
#include "HelpWindow.cpp"
#include "MainWindow.cpp"
#include "SaveLoadSettings.cpp"
#include "TvControlWindow.cpp"
#include "gingagui.cpp"
#undef main

static Formatter *
G ()
{
  return (Formatter *) GINGA;
}

static void
open_program (const string &text)
{
  static Demo d;
  GINGA = d.f;
  presentationAttributes.aspectRatio = 3;
  presentationAttributes.resolutionWidth = 800;
  presentationAttributes.resolutionHeight = 600;
  gingaView = (GtkWidget *) (a_widget + 8);
  if (text != "")
    {
      CHECK (d.start (text));
      inPlayMode = TRUE;
    }
}

static string
prop (const char *id, const char *name)
{
  Document *d = G ()->getDocument ();
  Object *o = d ? d->getObjectById (id) : nullptr;
  return o ? o->getProperty (name) : "?";
}

static void
key (guint keyval, bool press)
{
  GdkEventKey e;
  memset (&e, 0, sizeof e);
  e.keyval = keyval;
  keyboard_callback (gingaView, &e, (gpointer) (press ? "press" : "release"));
}

static void
frame (GtkWidget *w, gint64 us)
{
  now_us += us;
  counter++;
  update_draw_callback (w, (GdkFrameClock *) a_widget, NULL);
}
