// The graphical program (src/gingagui) under a simulated toolkit.
//
// The program's own sources are compiled here, unchanged, in a namespace of
// their own; the functions of GTK that it calls are the simulator's: a tree
// of widgets with names, texts, signals and the rules of GTK for destroying
// them (memory of a destroyed widget is given back at once, so that using it
// afterwards is an error that is seen).
#define G_DISABLE_CAST_CHECKS 1
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <locale.h>
#include <string>
#include <vector>
#include <gtk/gtk.h>
#include <glib/gstdio.h>
#include <libxml/parser.h>
#include <libxml/xmlmemory.h>
#include "sim.h"

#ifdef SIM_NO_APP
int
sim::gui_main (int, char **)
{
  sim::out ("NOAPP\n");
  return -1;
}
void
sim::gui_log (const char *, int, const char *)
{
}
void
sim::settings_set (const std::string &, const std::string &)
{
  sim::out ("NOAPP\n");
}
void
sim::settings_history (const std::vector<std::string> &)
{
}
void
sim::settings_save ()
{
}
void
sim::settings_load ()
{
}
void
sim::settings_show ()
{
}
#else

#include "ginga.h"
#include "aux-glib.h"
#include "aux-ginga.h"
#include <cairo.h>
#include <pango/pangocairo.h>

namespace {

struct Widget;

struct Handler
{
  gulong id;
  std::string signal;
  GCallback fn;
  gpointer data;
  bool swapped;
};

struct Widget
{
  std::string kind, name, text, tip;
  std::vector<Widget *> children;
  std::vector<Handler> handlers;
  std::vector<std::pair<guint, std::pair<GtkTickCallback, gpointer> > > ticks;
  std::vector<std::string> items;
  Widget *parent = nullptr;
  Widget *image = nullptr;
  Widget *area = nullptr; // of an info bar
  int refs = 1;
  int active = -1;
  int w = 0, h = 0;
  bool visible = false, sensitive = true, dying = false;
  bool full = false, selected = false, maximized = false, up = false;
  bool gone = false; // cleared by its destruction
};

std::vector<Widget *> *tops; // windows, oldest first
gulong next_id = 1;
long long now_us = 0, counter = 0;
int level, quit_level;
int mon_w = 96, mon_h = 54;
std::string chosen; // by the dialog that runs
bool have_chosen;
std::vector<std::pair<guint, std::pair<GSourceFunc, gpointer> > > timeouts;
GLogFunc log_fn;
gpointer log_data;
bool in_log;

#define W(x) ((Widget *) (gpointer) (x))

void do_op (const std::vector<std::string> &a);

Widget *
make (const char *kind)
{
  Widget *w = new Widget;
  w->kind = kind;
  return w;
}

template <class T>
T *
make_as (const char *kind)
{
  return (T *) (gpointer) make (kind);
}

GtkWidget *
mk (const char *kind)
{
  return make_as<GtkWidget> (kind);
}

void
unref (Widget *w)
{
  if (--w->refs == 0)
    {
      // What it holds was given up when it was destroyed.
      delete w;
    }
}

void
add (Widget *p, Widget *c, int pos = -1)
{
  if (p == nullptr || c == nullptr || c->parent != nullptr)
    return;
  c->parent = p;
  if (pos < 0 || (size_t) pos >= p->children.size ())
    p->children.push_back (c);
  else
    p->children.insert (p->children.begin () + pos, c);
}

void
unparent (Widget *c)
{
  Widget *p = c->parent;
  if (p == nullptr)
    return;
  auto it = std::find (p->children.begin (), p->children.end (), c);
  if (it != p->children.end ())
    p->children.erase (it);
  c->parent = nullptr;
}

template <class F>
void
emit (Widget *w, const char *name, F call)
{
  w->refs++;
  std::vector<Handler> hs = w->handlers;
  for (auto &h : hs)
    {
      if (h.signal != name)
        continue;
      bool on = false; // still connected
      for (auto &x : w->handlers)
        on = on || x.id == h.id;
      if (on)
        call (h);
    }
  unref (w);
}

void
emit0 (Widget *w, const char *name)
{
  emit (w, name, [&] (Handler &h) {
    if (h.swapped)
      ((void (*) (gpointer, gpointer)) h.fn) (h.data, w);
    else
      ((void (*) (gpointer, gpointer)) h.fn) (w, h.data);
  });
}

void
destroy (Widget *w)
{
  if (w == nullptr || w->dying)
    return;
  w->dying = true;
  w->refs++;
  bool held = w->parent != nullptr;
  unparent (w);
  auto it = std::find (tops->begin (), tops->end (), w);
  if (it != tops->end ())
    {
      tops->erase (it);
      held = true;
    }
  emit0 (w, "destroy");
  while (!w->children.empty ())
    destroy (w->children.back ());
  if (w->image != nullptr)
    destroy (w->image);
  if (w->area != nullptr)
    destroy (w->area);
  w->ticks.clear ();
  w->handlers.clear ();
  w->visible = false;
  w->gone = true;
  (void) held;
  unref (w);
  unref (w); // of the parent, of the toolkit, or floating
}

void
show_all (Widget *w)
{
  if (w == nullptr)
    return;
  w->visible = true;
  for (auto c : w->children)
    show_all (c);
}

gulong
sim_connect (gpointer i, const gchar *name, GCallback fn, gpointer data,
             gpointer, int flags)
{
  if (i == nullptr)
    return 0;
  W (i)->handlers.push_back (
      Handler{ next_id, name, fn, data, (flags & 2) != 0 });
  return next_id++;
}

void
sim_disconnect (gpointer i, gulong id)
{
  auto &v = W (i)->handlers;
  v.erase (std::remove_if (v.begin (), v.end (),
                           [&] (Handler &h) { return h.id == id; }),
           v.end ());
}

[[noreturn]] void
sim_exit (int code)
{
  sim::out ("EXIT %d\n", code & 255);
  sim::out ("DONE\n");
  sim::flush ();
  ::_exit (0);
}

guint
sim_timeout (guint, GSourceFunc fn, gpointer data)
{
  timeouts.push_back (std::make_pair ((guint) next_id,
                                      std::make_pair (fn, data)));
  return (guint) next_id++;
}

gboolean
sim_remove_source (guint id)
{
  for (auto it = timeouts.begin (); it != timeouts.end (); ++it)
    if (it->first == id)
      {
        timeouts.erase (it);
        return TRUE;
      }
  return FALSE;
}

} // namespace

// GTK. ---------------------------------------------------------------------

#define NEW0(fn, kind) \
  GtkWidget *fn (void) { return mk (kind); }
#define NOOP(decl) \
  void decl {}

extern "C" {
NEW0 (gtk_about_dialog_new, "about")
NEW0 (gtk_button_new, "button")
NEW0 (gtk_combo_box_text_new, "combo")
NEW0 (gtk_drawing_area_new, "canvas")
NEW0 (gtk_entry_new, "entry")
NEW0 (gtk_fixed_new, "fixed")
NEW0 (gtk_grid_new, "grid")
NEW0 (gtk_header_bar_new, "header")
NEW0 (gtk_list_box_new, "list")
NEW0 (gtk_notebook_new, "notebook")
NEW0 (gtk_text_view_new, "text")
NEW0 (gtk_volume_button_new, "volume")
NOOP (gtk_about_dialog_set_authors (GtkAboutDialog *, const gchar **))
NOOP (gtk_about_dialog_set_comments (GtkAboutDialog *, const gchar *))
NOOP (gtk_about_dialog_set_copyright (GtkAboutDialog *, const gchar *))
NOOP (gtk_about_dialog_set_license (GtkAboutDialog *, const gchar *))
NOOP (gtk_about_dialog_set_logo (GtkAboutDialog *, GdkPixbuf *))
NOOP (gtk_about_dialog_set_program_name (GtkAboutDialog *, const gchar *))
NOOP (gtk_about_dialog_set_website_label (GtkAboutDialog *, const gchar *))
NOOP (gtk_about_dialog_set_wrap_license (GtkAboutDialog *, gboolean))
NOOP (gtk_box_set_homogeneous (GtkBox *, gboolean))
NOOP (gtk_container_set_border_width (GtkContainer *, guint))
NOOP (gtk_frame_set_label_align (GtkFrame *, gfloat, gfloat))
NOOP (gtk_grid_set_column_homogeneous (GtkGrid *, gboolean))
NOOP (gtk_grid_set_row_homogeneous (GtkGrid *, gboolean))
NOOP (gtk_grid_set_row_spacing (GtkGrid *, guint))
NOOP (gtk_header_bar_set_decoration_layout (GtkHeaderBar *, const gchar *))
NOOP (gtk_header_bar_set_show_close_button (GtkHeaderBar *, gboolean))
NOOP (gtk_header_bar_set_title (GtkHeaderBar *, const gchar *))
NOOP (gtk_info_bar_set_message_type (GtkInfoBar *, GtkMessageType))
NOOP (gtk_info_bar_set_show_close_button (GtkInfoBar *, gboolean))
NOOP (gtk_list_box_set_activate_on_single_click (GtkListBox *, gboolean))
NOOP (gtk_notebook_set_show_tabs (GtkNotebook *, gboolean))
NOOP (gtk_style_context_add_provider_for_screen (GdkScreen *,
                                                 GtkStyleProvider *, guint))
NOOP (gtk_text_view_set_editable (GtkTextView *, gboolean))
NOOP (gtk_widget_set_app_paintable (GtkWidget *, gboolean))
NOOP (gtk_widget_set_can_focus (GtkWidget *, gboolean))
NOOP (gtk_widget_set_halign (GtkWidget *, GtkAlign))
NOOP (gtk_widget_set_has_tooltip (GtkWidget *, gboolean))
NOOP (gtk_widget_set_margin_start (GtkWidget *, gint))
NOOP (gtk_widget_set_margin_top (GtkWidget *, gint))
NOOP (gtk_window_iconify (GtkWindow *))
NOOP (gtk_window_set_position (GtkWindow *, GtkWindowPosition))
NOOP (gtk_window_set_resizable (GtkWindow *, gboolean))
NOOP (gtk_window_set_type_hint (GtkWindow *, GdkWindowTypeHint))
NOOP (gtk_init (int *, char ***))

GtkWidget *
gtk_box_new (GtkOrientation, gint)
{
  return mk ("box");
}

GtkWidget *
gtk_paned_new (GtkOrientation)
{
  return mk ("paned");
}

GtkWidget *
gtk_separator_new (GtkOrientation)
{
  return mk ("separator");
}

GtkWidget *
gtk_frame_new (const gchar *)
{
  return mk ("frame");
}

GtkWidget *
gtk_scrolled_window_new (GtkAdjustment *, GtkAdjustment *)
{
  return mk ("scrolled");
}

GtkWidget *
gtk_label_new (const gchar *s)
{
  Widget *w = make ("label");
  w->text = s != nullptr ? s : "";
  return (GtkWidget *) (gpointer) w;
}

const gchar *
gtk_label_get_text (GtkLabel *l)
{
  return W (l)->text.c_str ();
}

void
gtk_label_set_text (GtkLabel *l, const gchar *s)
{
  W (l)->text = s != nullptr ? s : "";
}

GtkWidget *
gtk_check_button_new_with_label (const gchar *s)
{
  Widget *w = make ("check");
  w->tip = s;
  w->active = 0;
  return (GtkWidget *) (gpointer) w;
}

GtkWidget *
gtk_image_new_from_file (const gchar *f)
{
  Widget *w = make ("image");
  gchar *s = g_path_get_basename (f);
  w->text = s;
  g_free (s);
  return (GtkWidget *) (gpointer) w;
}

void
gtk_button_set_image (GtkButton *b, GtkWidget *i)
{
  if (b == nullptr)
    return;
  if (W (b)->image != nullptr && W (b)->image != W (i))
    destroy (W (b)->image);
  W (b)->image = W (i);
}

GtkWidget *
gtk_button_get_image (GtkButton *b)
{
  return (GtkWidget *) (gpointer) W (b)->image;
}

GtkWidget *
gtk_bin_get_child (GtkBin *b)
{
  Widget *w = W (b);
  return w->children.empty () ? nullptr
                              : (GtkWidget *) (gpointer) w->children[0];
}

void
gtk_box_pack_start (GtkBox *b, GtkWidget *c, gboolean, gboolean, guint)
{
  add (W (b), W (c));
}

void
gtk_box_pack_end (GtkBox *b, GtkWidget *c, gboolean, gboolean, guint)
{
  add (W (b), W (c));
}

void
gtk_box_reorder_child (GtkBox *b, GtkWidget *c, gint pos)
{
  Widget *w = W (c);
  if (w->parent == W (b))
    {
      unparent (w);
      add (W (b), w, pos);
    }
}

void
gtk_fixed_put (GtkFixed *f, GtkWidget *c, gint, gint)
{
  add (W (f), W (c));
}

void
gtk_grid_attach (GtkGrid *g, GtkWidget *c, gint, gint, gint, gint)
{
  add (W (g), W (c));
}

void
gtk_header_bar_pack_start (GtkHeaderBar *b, GtkWidget *c)
{
  add (W (b), W (c));
}

void
gtk_header_bar_pack_end (GtkHeaderBar *b, GtkWidget *c)
{
  add (W (b), W (c));
}

void
gtk_header_bar_set_custom_title (GtkHeaderBar *b, GtkWidget *c)
{
  add (W (b), W (c));
}

gint
gtk_notebook_append_page (GtkNotebook *n, GtkWidget *c, GtkWidget *label)
{
  add (W (n), W (c));
  add (W (n), W (label));
  return 0;
}

void
gtk_paned_pack1 (GtkPaned *p, GtkWidget *c, gboolean, gboolean)
{
  add (W (p), W (c));
}

void
gtk_paned_pack2 (GtkPaned *p, GtkWidget *c, gboolean, gboolean)
{
  add (W (p), W (c));
}

void
gtk_window_set_titlebar (GtkWindow *w, GtkWidget *c)
{
  add (W (w), W (c));
}

void
gtk_container_add (GtkContainer *p, GtkWidget *c)
{
  if (p != nullptr && W (p)->kind == "list")
    gtk_list_box_insert ((GtkListBox *) p, c, -1);
  else
    add (W (p), W (c));
}

GList *
gtk_container_get_children (GtkContainer *p)
{
  GList *l = nullptr;
  if (p == nullptr)
    return nullptr;
  auto &v = W (p)->children;
  for (auto it = v.rbegin (); it != v.rend (); ++it)
    l = g_list_prepend (l, *it);
  return l;
}

void
gtk_container_remove (GtkContainer *p, GtkWidget *c)
{
  Widget *w = W (c);
  if (p == nullptr || w == nullptr)
    return;
  if (w->kind != "row" && W (p)->kind == "list" && w->parent != nullptr
      && w->parent->kind == "row")
    w = w->parent;
  if (w->parent == W (p))
    destroy (w); // nobody else holds it
}

// Lists.

void
gtk_list_box_insert (GtkListBox *b, GtkWidget *c, gint pos)
{
  Widget *row = W (c);
  if (row->kind != "row")
    {
      row = make ("row");
      add (row, W (c));
    }
  add (W (b), row, pos);
}

void
gtk_list_box_prepend (GtkListBox *b, GtkWidget *c)
{
  gtk_list_box_insert (b, c, 0);
}

GtkListBoxRow *
gtk_list_box_get_row_at_index (GtkListBox *b, gint i)
{
  auto &v = W (b)->children;
  return i < 0 || (size_t) i >= v.size () ? nullptr
                                          : (GtkListBoxRow *) (gpointer) v[i];
}

gint
gtk_list_box_row_get_index (GtkListBoxRow *r)
{
  Widget *w = W (r);
  if (w->parent == nullptr)
    return -1;
  auto &v = w->parent->children;
  return (gint) (std::find (v.begin (), v.end (), w) - v.begin ());
}

GtkListBoxRow *
gtk_list_box_get_selected_row (GtkListBox *b)
{
  for (auto c : W (b)->children)
    if (c->selected)
      return (GtkListBoxRow *) (gpointer) c;
  return nullptr;
}

void
gtk_list_box_unselect_all (GtkListBox *b)
{
  for (auto c : W (b)->children)
    c->selected = false;
}

void
gtk_list_box_unselect_row (GtkListBox *, GtkListBoxRow *r)
{
  if (r != nullptr)
    W (r)->selected = false;
}

// Other widgets.

gint
gtk_combo_box_get_active (GtkComboBox *b)
{
  return W (b)->active;
}

void
gtk_combo_box_set_active (GtkComboBox *b, gint i)
{
  Widget *w = W (b);
  if (i < -1 || i == w->active)
    return;
  w->active = i < (gint) w->items.size () ? i : -1;
  emit0 (w, "changed");
}

void
gtk_combo_box_text_insert_text (GtkComboBoxText *b, gint pos,
                                const gchar *s)
{
  auto &v = W (b)->items;
  if (pos < 0 || (size_t) pos >= v.size ())
    v.push_back (s);
  else
    v.insert (v.begin () + pos, s);
}

void
gtk_combo_box_text_append_text (GtkComboBoxText *b, const gchar *s)
{
  gtk_combo_box_text_insert_text (b, -1, s);
}

gboolean
gtk_toggle_button_get_active (GtkToggleButton *b)
{
  return W (b)->active > 0;
}

const gchar *
gtk_entry_get_text (GtkEntry *e)
{
  return W (e)->text.c_str ();
}

void
gtk_entry_set_text (GtkEntry *e, const gchar *s)
{
  if (s != nullptr)
    {
      std::string t = s; // may be its own
      W (e)->text = t;
    }
}

GtkTextBuffer *
gtk_text_view_get_buffer (GtkTextView *v)
{
  if (W (v)->area == nullptr)
    W (v)->area = make ("buffer");
  return (GtkTextBuffer *) (gpointer) W (v)->area;
}

void
gtk_text_buffer_set_text (GtkTextBuffer *b, const gchar *s, gint n)
{
  W (b)->text = n < 0 ? std::string (s) : std::string (s, (size_t) n);
}

void
gtk_text_buffer_insert_at_cursor (GtkTextBuffer *b, const gchar *s, gint n)
{
  std::string t = n < 0 ? std::string (s) : std::string (s, (size_t) n);
  if (!g_utf8_validate (t.c_str (), (gssize) t.size (), nullptr))
    sim::out ("G critical not-UTF-8\n");
  W (b)->text += t;
}

GtkWidget *
gtk_info_bar_new (void)
{
  Widget *w = make ("infobar");
  w->area = make ("area");
  return (GtkWidget *) (gpointer) w;
}

GtkWidget *
gtk_info_bar_get_content_area (GtkInfoBar *b)
{
  return (GtkWidget *) (gpointer) W (b)->area;
}

GtkWidget *
gtk_popover_new (GtkWidget *on)
{
  Widget *w = make ("popover");
  add (W (on), w);
  return (GtkWidget *) (gpointer) w;
}

void
gtk_popover_popup (GtkPopover *p)
{
  if (p != nullptr)
    W (p)->up = W (p)->visible = true;
}

void
gtk_popover_popdown (GtkPopover *p)
{
  if (p != nullptr)
    W (p)->up = W (p)->visible = false;
}

GtkCssProvider *
gtk_css_provider_new (void)
{
  return make_as<GtkCssProvider> ("css");
}

gboolean
gtk_css_provider_load_from_file (GtkCssProvider *, GFile *, GError **)
{
  return TRUE;
}

// Windows and dialogs.

static GtkWidget *
new_window (const char *kind)
{
  Widget *w = make (kind);
  tops->push_back (w);
  return (GtkWidget *) (gpointer) w;
}

GtkWidget *
gtk_window_new (GtkWindowType)
{
  return new_window ("window");
}

void
gtk_window_set_title (GtkWindow *w, const gchar *s)
{
  W (w)->text = s;
}

void
gtk_window_set_default_size (GtkWindow *w, gint a, gint b)
{
  W (w)->w = a;
  W (w)->h = b;
}

gboolean
gtk_window_set_default_icon_from_file (const gchar *, GError **)
{
  return TRUE;
}

void
gtk_window_fullscreen (GtkWindow *w)
{
  W (w)->full = true;
}

void
gtk_window_unfullscreen (GtkWindow *w)
{
  W (w)->full = false;
}

gboolean
gtk_window_is_maximized (GtkWindow *w)
{
  return W (w)->maximized;
}

void
gtk_window_maximize (GtkWindow *w)
{
  W (w)->maximized = true;
}

void
gtk_window_unmaximize (GtkWindow *w)
{
  W (w)->maximized = false;
}

void
gtk_window_present (GtkWindow *w)
{
  W (w)->visible = true;
}

GtkWidget *
gtk_file_chooser_dialog_new (const gchar *, GtkWindow *, GtkFileChooserAction,
                             const gchar *, ...)
{
  return new_window ("dialog");
}

GtkWidget *
gtk_message_dialog_new (GtkWindow *, GtkDialogFlags, GtkMessageType,
                        GtkButtonsType, const gchar *, ...)
{
  return new_window ("dialog");
}

gchar *
gtk_file_chooser_get_filename (GtkFileChooser *)
{
  return have_chosen ? g_strdup (chosen.c_str ()) : nullptr;
}

gint
gtk_dialog_run (GtkDialog *d)
{
  // Time goes on while the dialog is open; then the user answers it.
  W (d)->visible = true;
  W (d)->refs++;
  gint res = GTK_RESPONSE_CANCEL;
  std::vector<std::string> a;
  while (sim::plan_peek (&a))
    {
      if (a[0] != "gr" && a[0] != "gf")
        break;
      sim::plan_next (&a);
      if (a[0] == "gr")
        {
          res = atoi (a[1].c_str ());
          have_chosen = a.size () > 2;
          chosen = have_chosen ? sim::unesc (a[2]) : "";
          sim::plan_done ();
          break;
        }
      do_op (a);
      sim::plan_done ();
    }
  unref (W (d));
  return res;
}

// Any widget.

guint
(gtk_widget_add_tick_callback) (GtkWidget *w, GtkTickCallback fn,
                                gpointer data, GDestroyNotify)
{
  W (w)->ticks.push_back (std::make_pair ((guint) next_id,
                                          std::make_pair (fn, data)));
  return (guint) next_id++;
}

void
gtk_widget_remove_tick_callback (GtkWidget *w, guint id)
{
  auto &v = W (w)->ticks;
  for (auto it = v.begin (); it != v.end (); ++it)
    if (it->first == id)
      {
        v.erase (it);
        return;
      }
}

void
gtk_widget_destroy (GtkWidget *w)
{
  destroy (W (w));
}

int
gtk_widget_get_allocated_width (GtkWidget *w)
{
  return W (w)->w;
}

int
gtk_widget_get_allocated_height (GtkWidget *w)
{
  return W (w)->h;
}

const gchar *
gtk_widget_get_name (GtkWidget *w)
{
  return W (w)->name.c_str ();
}

void
gtk_widget_set_name (GtkWidget *w, const gchar *s)
{
  W (w)->name = s;
}

void
gtk_widget_set_tooltip_text (GtkWidget *w, const gchar *s)
{
  W (w)->tip = s;
}

void
gtk_widget_set_size_request (GtkWidget *w, gint a, gint b)
{
  W (w)->w = a;
  W (w)->h = b;
}

void
gtk_widget_show (GtkWidget *w)
{
  if (w != nullptr)
    W (w)->visible = true;
}

void
gtk_widget_hide (GtkWidget *w)
{
  if (w != nullptr)
    W (w)->visible = false;
}

void
gtk_widget_set_visible (GtkWidget *w, gboolean b)
{
  if (w != nullptr)
    W (w)->visible = b;
}

gboolean
gtk_widget_get_visible (GtkWidget *w)
{
  return W (w)->visible;
}

gboolean
gtk_widget_is_visible (GtkWidget *w)
{
  return W (w)->visible;
}

void
gtk_widget_show_all (GtkWidget *w)
{
  show_all (W (w));
}

void
gtk_widget_set_sensitive (GtkWidget *w, gboolean b)
{
  if (w != nullptr)
    W (w)->sensitive = b;
}

gboolean
gtk_widget_get_sensitive (GtkWidget *w)
{
  return W (w)->sensitive;
}

gboolean
gtk_widget_is_sensitive (GtkWidget *w)
{
  return W (w)->sensitive;
}

GtkWidget *
gtk_widget_get_parent (GtkWidget *w)
{
  return (GtkWidget *) (gpointer) W (w)->parent;
}

void
gtk_widget_queue_draw (GtkWidget *w)
{
  sim::out ("W draw %s\n", W (w)->kind.c_str ());
}

void
gtk_main_quit (void)
{
  quit_level = level;
  sim::out ("Q\n");
}
}

namespace {
void sim_main ();
char sim_display[64];

void
sim_geometry (GdkRectangle *r)
{
  r->x = r->y = 0;
  r->width = mon_w;
  r->height = mon_h;
}
}

#define gdk_display_get_default() ((GdkDisplay *) (gpointer) sim_display)
#define gdk_display_get_default_screen(d) ((GdkScreen *) (gpointer) sim_display)
#define gdk_display_get_monitor(d, n) ((GdkMonitor *) (gpointer) sim_display)
#define gdk_display_get_monitor_at_window(d, w) \
  ((GdkMonitor *) (gpointer) sim_display)
#define gdk_monitor_get_geometry(m, r) sim_geometry (r)
#define gdk_frame_clock_get_frame_time(c) ((gint64) now_us)
#define gdk_frame_clock_get_frame_counter(c) ((gint64) counter)
#define g_get_monotonic_time() ((gint64) now_us)
#define g_get_real_time() ((gint64) 1500000000000000 + now_us)
#define g_signal_connect_data(i, s, f, d, n, l) \
  sim_connect ((gpointer) (i), s, f, (gpointer) (d), nullptr, (int) (l))
#define g_signal_handler_disconnect(i, n) sim_disconnect ((gpointer) (i), n)
#define g_object_set(...) ((void) 0)
#define g_timeout_add(t, f, d) sim_timeout (t, f, (gpointer) (d))
#define g_source_remove(i) sim_remove_source (i)
#define g_log_set_default_handler(f, d) \
  ((void) (log_fn = (GLogFunc) (f), log_data = (gpointer) (d)))
#define g_get_user_config_dir() (sim::io_root ())
#define g_setenv(...) (TRUE)
#define gtk_main() sim_main ()
#define exit(c) sim_exit (c)
#undef GINGADATADIR
#define GINGADATADIR (sim::io_root ())
#ifndef GINGABINDIR
#define GINGABINDIR "/nowhere"
#endif

namespace gui {
#include "gingagui/gingagui.h"
#include "gingagui/AboutWindow.cpp"
#include "gingagui/BigPictureWindow.cpp"
#include "gingagui/Draw.cpp"
#include "gingagui/FullscreenWindow.cpp"
#include "gingagui/HelpWindow.cpp"
#include "gingagui/MainWindow.cpp"
#include "gingagui/SaveLoadSettings.cpp"
#include "gingagui/TvControlWindow.cpp"
#define main gui_main
#include "gingagui/gingagui.cpp"
#undef main
}
#undef exit

namespace {

template <class F>
Widget *
find (Widget *w, F test, bool shown = false)
{
  if (shown && !w->visible)
    return nullptr;
  if (test (w))
    return w;
  for (auto c : w->children)
    {
      Widget *r = find (c, test, shown);
      if (r != nullptr)
        return r;
    }
  return nullptr;
}

template <class F>
Widget *
find (F test)
{
  for (auto t : *tops)
    {
      Widget *r = find (t, test);
      if (r != nullptr)
        return r;
    }
  return nullptr;
}

// The windows, by what they are for.
Widget *
window (char c)
{
  Widget *full = nullptr, *main = nullptr, *tv = nullptr;
  int n = 0;
  for (auto t : *tops)
    {
      if (t->kind == "about")
        {
          if (c == 'a')
            return t;
          continue;
        }
      if (t->kind != "window")
        continue;
      if (t->text == "Control")
        tv = t;
      else if (t->full)
        full = t, n++; // the last one
      else if (main == nullptr)
        main = t;
      else if (c == 'h')
        return t;
    }
  return c == 'm' ? main : c == 'f' ? full : c == 't' ? tv : nullptr;
}

Widget *
canvas_of (Widget *w)
{
  return w == nullptr
             ? nullptr
             : find (w, [] (Widget *x) { return x->kind == "canvas"; });
}

Widget *
button (const std::string &icon)
{
  return find ([&] (Widget *x) {
    return x->image != nullptr && x->image->text == icon;
  });
}

// A button of the main window by its purpose.
Widget *
named (const std::string &n)
{
  if (n == "play")
    {
      Widget *b = button ("play-icon.png");
      return b != nullptr ? b : button ("pause-icon.png");
    }
  if (n == "entry" || n == "list")
    return find ([&] (Widget *x) { return x->kind == n; });
  if (n == "check")
    return find ([&] (Widget *x) { return x->kind == "check"; });
  return button (n + ".png");
}

bool
usable (Widget *w)
{
  return w != nullptr && w->sensitive && !w->dying;
}

void
tick (Widget *w)
{
  // All callbacks of the widgets of a window, in the order of the tree.
  std::vector<Widget *> ws;
  find (w, [&] (Widget *x) {
    if (!x->ticks.empty ())
      {
        x->refs++;
        ws.push_back (x);
      }
    return false;
  });
  for (auto x : ws)
    {
      auto ts = x->ticks;
      for (auto &t : ts)
        {
          bool on = false;
          for (auto &y : x->ticks)
            on = on || y.first == t.first;
          if (on
              && !t.second.first ((GtkWidget *) (gpointer) x,
                                  (GdkFrameClock *) (gpointer) sim_display,
                                  t.second.second))
            gtk_widget_remove_tick_callback ((GtkWidget *) (gpointer) x,
                                             t.first);
        }
      unref (x);
    }
}

void
report ()
{
  Widget *play = named ("play"), *open = named ("openfile-icon"),
         *hist = named ("history-icon"), *e = named ("entry"),
         *l = named ("list");
  Widget *bar = find ([] (Widget *x) { return x->kind == "infobar"; });
  sim::out ("U play=%d open=%d hist=%d entry=%d bar=%d full=%d tv=%d "
            "text=%s debug=%d size=%dx%d list=",
            usable (play), usable (open), usable (hist), usable (e),
            bar != nullptr, window ('f') != nullptr,
            window ('t') != nullptr,
            e ? sim::esc (e->text).c_str () : "-",
            gui::GINGA->getOptionBool ("debug"),
            gui::GINGA->getOptionInt ("width"),
            gui::GINGA->getOptionInt ("height"));
  if (l != nullptr)
    for (auto r : l->children)
      sim::out ("%s,", r->children.empty ()
                           ? "?"
                           : sim::esc (r->children[0]->text).c_str ());
  sim::out ("\n");
}

void
click (Widget *w)
{
  if (!usable (w))
    {
      sim::out ("SKIP\n");
      return;
    }
  if (w->kind == "check")
    w->active = !w->active;
  emit0 (w, "clicked");
}

void
do_op (const std::vector<std::string> &a)
{
  auto I = [&] (size_t i) {
    return i < a.size () ? atoll (a[i].c_str ()) : 0ll;
  };
  auto S = [&] (size_t i) {
    return i < a.size () ? sim::unesc (a[i]) : std::string ();
  };
  const std::string &op = a[0];
  if (op == "gf") // a frame
    {
      Widget *w = window (a[1][0]);
      now_us += I (2);
      counter++;
      if (w == nullptr || !w->visible)
        sim::out ("SKIP\n");
      else
        tick (w);
      std::vector<guint> ids;
      for (auto &t : timeouts)
        ids.push_back (t.first);
      for (auto id : ids)
        for (auto t : std::vector<
                 std::pair<guint, std::pair<GSourceFunc, gpointer> > > (
                 timeouts))
          if (t.first == id && !t.second.first (t.second.second))
            sim_remove_source (id);
    }
  else if (op == "gk") // a key
    {
      Widget *w = window (a[1][0]);
      if (w == nullptr)
        {
          sim::out ("SKIP\n");
          return;
        }
      GdkEventKey e;
      memset (&e, 0, sizeof e);
      e.type = I (3) ? GDK_KEY_PRESS : GDK_KEY_RELEASE;
      e.keyval = (guint) I (2);
      emit (w, I (3) ? "key-press-event" : "key-release-event",
            [&] (Handler &h) {
              ((void (*) (gpointer, GdkEventKey *, gpointer)) h.fn) (
                  w, &e, h.data);
            });
    }
  else if (op == "gc") // a click on a button
    click (named (S (1)));
  else if (op == "gt") // a click on a button of the control
    {
      std::string n = S (1) + ".png";
      auto is = [&] (Widget *x) {
        return x->image != nullptr && x->image->text == n
               && x->parent != nullptr && x->parent->kind == "fixed";
      };
      Widget *b = nullptr;
      if (window ('t') != nullptr)
        b = find (window ('t'), is, true);
      if (b == nullptr && window ('m') != nullptr)
        b = find (window ('m'), is, true);
      click (b);
    }
  else if (op == "gy") // typing in the entry
    {
      Widget *e = named ("entry");
      if (!usable (e))
        sim::out ("SKIP\n");
      else
        e->text = S (1);
    }
  else if (op == "gr") // an answer to a dialog that is not there
    sim::out ("SKIP\n");
  else if (op == "gh") // choosing from the history
    {
      Widget *l = named ("list");
      if (!usable (named ("history-icon")) || l == nullptr
          || (size_t) I (1) >= l->children.size ())
        {
          sim::out ("SKIP\n");
          return;
        }
      emit0 (named ("history-icon"), "clicked");
      for (Widget *x = l; x != nullptr; x = x->parent)
        if (x->kind == "popover" && !x->up)
          {
            sim::out ("SKIP\n");
            return;
          }
      Widget *r = l->children[(size_t) I (1)];
      r->selected = true;
      r->refs++;
      emit (l, "row-activated", [&] (Handler &h) {
        ((void (*) (gpointer, gpointer, gpointer)) h.fn) (l, r, h.data);
      });
      unref (r);
    }
  else if (op == "gx") // closing a window
    {
      Widget *w = window (a[1][0]);
      if (w == nullptr)
        sim::out ("SKIP\n");
      else
        destroy (w);
    }
  else if (op == "gi") // closing the message
    {
      Widget *b = find ([] (Widget *x) { return x->kind == "infobar"; });
      if (b == nullptr)
        sim::out ("SKIP\n");
      else
        emit (b, "response", [&] (Handler &h) {
          ((void (*) (gpointer, int, gpointer)) h.fn) (b, -7, h.data);
        });
    }
  else if (op == "gm") // a choice of a combo box
    {
      int n = 0;
      Widget *b = find ([&] (Widget *x) {
        return x->kind == "combo" && n++ == I (1);
      });
      if (b == nullptr || b->active == I (2)
          || (size_t) I (2) >= b->items.size ())
        sim::out ("SKIP\n");
      else
        gtk_combo_box_set_active ((GtkComboBox *) (gpointer) b,
                                  (gint) I (2));
    }
  else if (op == "gz") // the main window gets another size
    {
      Widget *c = canvas_of (window ('m'));
      if (c == nullptr)
        {
          sim::out ("SKIP\n");
          return;
        }
      GdkEventConfigure e;
      memset (&e, 0, sizeof e);
      e.type = GDK_CONFIGURE;
      c->w = e.width = (gint) I (1);
      c->h = e.height = (gint) I (2);
      emit (c, "configure-event", [&] (Handler &h) {
        ((gboolean (*) (gpointer, GdkEventConfigure *, gpointer)) h.fn) (
            c, &e, h.data);
      });
    }
  else if (op == "gd") // drawing
    {
      Widget *c = canvas_of (window (a[1][0]));
      if (c == nullptr)
        {
          sim::out ("SKIP\n");
          return;
        }
      cairo_surface_t *sfc = cairo_image_surface_create (
          CAIRO_FORMAT_ARGB32, c->w, c->h);
      cairo_t *cr = cairo_create (sfc);
      emit (c, "draw", [&] (Handler &h) {
        ((void (*) (gpointer, cairo_t *, gpointer)) h.fn) (c, cr, h.data);
      });
      cairo_destroy (cr);
      cairo_surface_flush (sfc);
      if (c->w * c->h <= 20000)
        sim::image (sfc, c->w, c->h);
      // Which of the ways to fit the picture into the window it is.
      std::string like;
      for (int k = 0; k < 4; k++)
        {
          cairo_surface_t *s2 = cairo_image_surface_create (
              CAIRO_FORMAT_ARGB32, c->w, c->h);
          cr = cairo_create (s2);
          cairo_set_source_rgb (cr, 0, 0, 0);
          cairo_paint (cr);
          double w = c->w * (k == 0 ? 0.75 : 1);
          double h = c->h * (k == 1 ? 9. / 16 : k == 2 ? 10. / 16 : 1);
          cairo_translate (cr, (c->w - w) / 2, (c->h - h) / 2);
          cairo_scale (cr, w / c->w, h / c->h);
          gui::GINGA->redraw (cr);
          cairo_destroy (cr);
          cairo_surface_flush (s2);
          if (memcmp (cairo_image_surface_get_data (sfc),
                      cairo_image_surface_get_data (s2),
                      (size_t) cairo_image_surface_get_stride (sfc)
                          * (size_t) c->h)
              == 0)
            like += std::to_string (k);
          cairo_surface_destroy (s2);
        }
      sim::out ("A %s\n", like.c_str ());
      cairo_surface_destroy (sfc);
    }
  else if (op == "gl") // something is logged
    {
      sim::gui_log ("GLib", G_LOG_LEVEL_WARNING, S (1).c_str ());
      Widget *t = find ([] (Widget *x) { return x->kind == "text"; });
      std::string all = t != nullptr && t->area != nullptr ? t->area->text
                                                           : "";
      std::string end = S (1) + "\n";
      sim::out ("L %d\n", all.size () >= end.size ()
                              && all.substr (all.size () - end.size ())
                                     == end);
    }
  else
    sim::out ("BADOP %s\n", op.c_str ());
}

void
sim_main ()
{
  level++;
  quit_level = 0;
  sim::plan_mark ("enter");
  sim::plan_enter (gui::GINGA);
  report ();
  while (quit_level != level)
    {
      std::vector<std::string> a;
      if (!sim::plan_next (&a))
        break;
      do_op (a);
      if (quit_level != level)
        report ();
      sim::plan_done ();
    }
  sim::plan_mark ("leave");
  level--;
}

} // namespace

void
sim::gui_log (const char *domain, int lev, const char *msg)
{
  if (log_fn == nullptr || in_log)
    return;
  in_log = true;
  log_fn (domain, (GLogLevelFlags) lev, msg, log_data);
  in_log = false;
}

int
sim::gui_main (int argc, char **argv)
{
  tops = new std::vector<Widget *>;
  return gui::gui_main (argc, argv);
}

// The settings alone (the main window is not open).

void
sim::settings_set (const std::string &field, const std::string &value)
{
  guint n = (guint) atoi (value.c_str ());
  if (field == "id")
    gui::gingaID = g_strdup (value.c_str ());
  else if (field == "aspect")
    gui::presentationAttributes.aspectRatio = n;
  else if (field == "rate")
    gui::presentationAttributes.frameRate = n;
  else
    gui::presentationAttributes.guiTheme = n;
}

void
sim::settings_history (const std::vector<std::string> &names)
{
  gui::historicBox = gtk_list_box_new ();
  for (auto &s : names)
    gtk_list_box_insert ((GtkListBox *) gui::historicBox,
                         gtk_label_new (s.c_str ()), -1);
}

void
sim::settings_save ()
{
  if (gui::historicBox == nullptr) // made by the main window
    gui::historicBox = gtk_list_box_new ();
  gui::save_settings ();
}

void
sim::settings_load ()
{
  gui::load_settings ();
}

void
sim::settings_show ()
{
  const auto &p = gui::presentationAttributes;
  sim::out ("O %s %u %u %u",
            gui::gingaID ? sim::esc (gui::gingaID).c_str () : "-",
            p.aspectRatio, p.frameRate, p.guiTheme);
  if (gui::historicBox != nullptr)
    for (auto r : W (gui::historicBox)->children)
      sim::out (" %s", r->children.empty ()
                           ? "-"
                           : sim::esc (r->children[0]->text).c_str ());
  sim::out ("\n");
}
#endif
