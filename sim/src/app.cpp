// The player program (src/ginga.cpp) under a simulated window system.
//
// The program's own source is compiled here, unchanged, with the calls it
// makes to the window system, to the clock of the frames and to the
// operating system (_exit, signal) replaced by those of the simulator.
#define G_DISABLE_CAST_CHECKS 1
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include <gtk/gtk.h>
#ifdef G_OS_UNIX
#include <glib-unix.h>
#endif
#include <glib/gprintf.h>
#include "sim.h"

namespace sim {
void (*pending_handler) (int);
int pending_signal;
int pending_after = -1;
}

#ifdef SIM_NO_APP
int
sim::app_main (int, char **)
{
  sim::out ("NOAPP\n");
  return -1;
}
void
sim::app_config (long long, long long, long long, int)
{
}
#else

#include "ginga.h"
#include "aux-glib.h"
#include "aux-ginga.h"

namespace {

struct Handler
{
  std::string name;
  GCallback fn;
  gpointer data;
};

std::vector<Handler> handlers;
GtkTickCallback tick_fn;
gpointer tick_data;
std::vector<std::pair<GSourceFunc, gpointer> > unix_signals[65];
void (*sig_fn[65]) (int);
long long now_us = 0;
long long gap_us = 0;
long long counter = -1;
int depth;
bool quit;
int win_w = 800, win_h = 600;
gulong next_id = 1;
char window[64]; // never looked into

void *
sim_window ()
{
  return window;
}

gulong
sim_connect (gpointer, const gchar *name, GCallback fn, gpointer data, ...)
{
  handlers.push_back (Handler{ name, fn, data });
  return next_id++;
}

guint
sim_add_tick (gpointer, GtkTickCallback fn, gpointer data, ...)
{
  tick_fn = fn;
  tick_data = data;
  return 1;
}

void
sim_remove_tick (gpointer, guint)
{
  tick_fn = nullptr;
}

void
sim_note (const char *what)
{
  sim::out ("W %s\n", what);
}

[[noreturn]] void
sim_exit (int code)
{
  sim::out ("EXIT %d\n", code & 255);
  sim::out ("DONE\n");
  sim::flush ();
  ::_exit (0);
}

typedef void (*sig_t_) (int);

sig_t_
sim_set_signal (int n, sig_t_ fn)
{
  sig_t_ old = sig_fn[n & 63];
  sig_fn[n & 63] = fn;
  return old;
}

guint
sim_unix_signal (int n, GSourceFunc fn, gpointer data)
{
  unix_signals[n & 63].push_back (std::make_pair (fn, data));
  return 1;
}

void
sim_quit ()
{
  quit = true;
  sim::out ("Q\n");
}

void sim_main ();

} // namespace

#define gtk_init(a, b) ((void) 0)
#define gtk_window_new(t) ((GtkWidget *) sim_window ())
#define gtk_window_set_title(...) ((void) 0)
#define gtk_window_set_default_size(w_, a, b) \
  ((void) (win_w = (a), win_h = (b)))
#define gtk_window_set_position(...) ((void) 0)
#define gtk_window_set_resizable(...) ((void) 0)
#define gtk_window_present(...) sim_note ("show")
#define gtk_window_fullscreen(w_) sim_note ("fullscreen")
#define gtk_window_unfullscreen(w_) sim_note ("window")
#define gtk_gl_area_new() ((GtkWidget *) sim_window ())
#define gtk_container_add(...) ((void) 0)
#define gtk_widget_set_app_paintable(...) ((void) 0)
#define gtk_widget_add_events(...) ((void) 0)
#define gtk_widget_set_size_request(...) ((void) 0)
#define gtk_widget_show_all(w_) sim_note ("show")
#define gtk_widget_show(w_) sim_note ("show")
#define gtk_widget_hide(w_) sim_note ("hide")
#define gtk_widget_destroy(w_) ((void) 0)
#define gtk_widget_queue_draw(w_) sim_note ("draw")
#define gtk_widget_get_frame_clock(w_) ((GdkFrameClock *) sim_window ())
#define gtk_widget_get_allocated_width(w_) (win_w)
#define gtk_widget_get_allocated_height(w_) (win_h)
#undef gtk_widget_add_tick_callback
#define gtk_widget_add_tick_callback(w_, f, d, n) \
  sim_add_tick (w_, (GtkTickCallback) (f), d)
#define gtk_widget_remove_tick_callback(w_, i) sim_remove_tick (w_, i)
#define gdk_frame_clock_get_frame_time(c) ((gint64) now_us)
#define gdk_frame_clock_get_frame_counter(c) ((gint64) counter)
#define g_get_monotonic_time() ((gint64) now_us)
#define g_signal_connect_data(i, s, f, d, n, l) \
  sim_connect ((gpointer) (i), s, f, d)
#define gtk_main() sim_main ()
#define gtk_main_quit() sim_quit ()
#define gtk_main_level() (depth)
#define _exit(c) sim_exit (c)
#define exit(c) sim_exit (c)
#define signal(n, f) sim_set_signal (n, f)
#define g_unix_signal_add(n, f, d) sim_unix_signal (n, f, d)
#define main ginga_main

#include "ginga.cpp"

#undef main
#undef _exit
#undef exit
#undef signal

namespace {

void
fire_signal (int n)
{
  n &= 63;
  sim::out ("SIG\n");
  for (auto &it : unix_signals[n])
    it.first (it.second);
  if (sig_fn[n] != nullptr && sig_fn[n] != SIG_IGN)
    sig_fn[n](n);
  else if (unix_signals[n].empty () && sig_fn[n] == nullptr)
    sim_exit (128 + n);
}

Handler *
find (const char *name)
{
  for (auto &h : handlers)
    if (h.name == name)
      return &h;
  return nullptr;
}

void
do_draw ()
{
  int w = win_w, h = win_h;
  cairo_surface_t *sfc
      = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  Handler *hd = find ("draw");
  if (hd != nullptr)
    ((gboolean (*) (GtkWidget *, cairo_t *, gpointer)) hd->fn) (
        (GtkWidget *) sim_window (), cr, hd->data);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  sim::image (sfc, w, h);
  cairo_surface_destroy (sfc);
}

void
do_op (const std::vector<std::string> &a)
{
  auto I = [&] (size_t i) {
    return i < a.size () ? atoll (a[i].c_str ()) : 0ll;
  };
  const std::string &op = a[0];
  GtkWidget *w = (GtkWidget *) sim_window ();
  if (op == "frame")
    {
      now_us += I (2);
      counter++;
      if (tick_fn != nullptr
          && !tick_fn (w, (GdkFrameClock *) sim_window (), tick_data))
        tick_fn = nullptr;
    }
  else if (op == "kp")
    {
      GdkEventKey e;
      memset (&e, 0, sizeof e);
      e.type = I (3) ? GDK_KEY_PRESS : GDK_KEY_RELEASE;
      e.keyval = (guint) I (2);
      Handler *h = find (I (3) ? "key-press-event" : "key-release-event");
      if (h != nullptr)
        ((gboolean (*) (GtkWidget *, GdkEventKey *, gpointer)) h->fn) (
            w, &e, h->data);
    }
  else if (op == "conf")
    {
      GdkEventConfigure e;
      memset (&e, 0, sizeof e);
      e.type = GDK_CONFIGURE;
      win_w = e.width = (gint) I (2);
      win_h = e.height = (gint) I (3);
      Handler *h = find ("configure-event");
      if (h != nullptr)
        ((gboolean (*) (GtkWidget *, GdkEventConfigure *, gpointer)) h->fn) (
            w, &e, h->data);
    }
  else if (op == "draw")
    do_draw ();
  else if (op == "term")
    {
      if (I (2) < 0)
        fire_signal (SIGTERM);
      else
        {
          sim::pending_handler = fire_signal;
          sim::pending_signal = SIGTERM;
          sim::pending_after = (int) I (2);
        }
    }
  else if (op == "close")
    {
      Handler *h = find ("destroy");
      if (h != nullptr)
        ((void (*) (GtkWidget *, gpointer)) h->fn) (w, h->data);
      sim::out ("CLOSED\n"); // the program goes on without its window
      sim_exit (254);
    }
  else
    sim::out ("BADOP %s\n", op.c_str ());
}

void
sim_main ()
{
  depth++;
  quit = false;
  now_us += gap_us;
  sim::plan_mark ("enter");
  sim::plan_enter (GINGA);
  while (true)
    {
      std::vector<std::string> a;
      bool have = sim::plan_peek (&a);
      if (quit && !(have && a.size () > 1 && a[1] == "1"))
        break;
      if (!have)
        {
          sim::plan_mark ("close");
          do_op ({ "close" });
        }
      sim::plan_next (&a);
      do_op (a);
      sim::out ("B %d %d %d %s\n", GINGA->getOptionBool ("debug"),
                GINGA->getOptionInt ("width"),
                GINGA->getOptionInt ("height"),
                sim::esc (GINGA->getOptionString ("background")).c_str ());
      sim::plan_done ();
    }
  sim::pending_after = -1;
  sim::plan_mark ("leave");
  depth--;
}

} // namespace

void
sim::app_config (long long t, long long gap, long long c, int)
{
  now_us = t;
  gap_us = gap;
  counter = c - 1;
}

int
sim::app_main (int argc, char **argv)
{
  return ginga_main (argc, argv);
}
#endif
