// Simulator driver: runs one plan per forked child.
//
// stdin:  "PLAN <nbytes>\n" followed by that many bytes of plan text.
// stdout: the event log of the run, then "END <exit> <signal>\n".

#include "sim.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes ();

#include "aux-ginga.h"
#include "Context.h"
#include "Document.h"
#include "Event.h"
#include "Formatter.h"
#include "Media.h"
#include "MediaSettings.h"
#include "Object.h"
#include "Parser.h"
#include "ParserLua.h"
#include "Player.h"
#include "PlayerAnimator.h"
#include "Predicate.h"
#include "Switch.h"
#include "WebServices.h"

#include <errno.h>
#include <fcntl.h>
#include <fontconfig/fontconfig.h>
#include <libxml/parser.h>
#include <pango/pangocairo.h>
#include <signal.h>
#include <algorithm>
#include <sstream>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined __SANITIZE_ADDRESS__
extern "C" const char *__asan_default_options ();
extern "C" const char *
__asan_default_options ()
{
  return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:"
         "handle_segv=1:detect_stack_use_after_return=0:"
         "allocator_may_return_null=1:malloc_context_size=12:"
         "quarantine_size_mb=16:symbolize=1:new_delete_type_mismatch=0:"
         "alloc_dealloc_mismatch=0:verify_asan_link_order=0";
}
extern "C" const char *__ubsan_default_options ();
extern "C" const char *
__ubsan_default_options ()
{
  return "print_stacktrace=1:halt_on_error=1:exitcode=98";
}
#endif

// ------------------------------------------------------------ output

static int out_fd = 1;
static char out_buf[1 << 16];
static size_t out_len;

namespace sim {

void
flush ()
{
  size_t o = 0;
  while (o < out_len)
    {
      ssize_t r = write (out_fd, out_buf + o, out_len - o);
      if (r < 0)
        {
          if (errno == EINTR)
            continue;
          _exit (94);
        }
      o += (size_t) r;
    }
  out_len = 0;
}

void
out (const char *fmt, ...)
{
  char tmp[16384];
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (tmp, sizeof tmp, fmt, ap);
  va_end (ap);
  if (n < 0)
    return;
  if ((size_t) n >= sizeof tmp)
    {
      n = (int) sizeof tmp - 1;
      tmp[n - 1] = '\n';
    }
  if (out_len + (size_t) n > sizeof out_buf)
    flush ();
  memcpy (out_buf + out_len, tmp, (size_t) n);
  out_len += (size_t) n;
}

std::string
esc (const std::string &s)
{
  static const char hex[] = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s)
    if (c <= ' ' || c == '%' || c >= 127)
      {
        r += '%';
        r += hex[c >> 4];
        r += hex[c & 15];
      }
    else
      r += (char) c;
  return r.empty () ? "%" : r;
}

std::string
unesc (const std::string &s)
{
  std::string r;
  if (s == "%")
    return r;
  for (size_t i = 0; i < s.size (); i++)
    if (s[i] == '%' && i + 2 < s.size ())
      {
        r += (char) strtol (s.substr (i + 1, 2).c_str (), nullptr, 16);
        i += 2;
      }
    else
      r += s[i];
  return r;
}

}

using sim::unesc;

// ------------------------------------------------- transition observation

static long long heap_base; // in use at the first measurement
static bool trace_on = true;
static int trans_depth;

static string
evt_key (Event *e)
{
  static const char t[] = { 'A', 'P', 'S', 'L' };
  return string (1, t[e->getType ()]) + ":" + e->getId ();
}

static const char trans_code[] = { 'a', 'p', 'r', 's', 'e' };

extern "C" {
// Weak: a tree without this out-of-line function still links (and then
// simply yields no transition trace).
bool __real__ZN5ginga5Event10transitionENS0_10TransitionE (
    Event *, Event::Transition) __attribute__ ((weak));
bool __wrap__ZN5ginga5Event10transitionENS0_10TransitionE (
    Event *, Event::Transition);

bool
__wrap__ZN5ginga5Event10transitionENS0_10TransitionE (Event *e,
                                                      Event::Transition t)
{
  if (sim::pending_after >= 0 && sim::pending_after-- == 0)
    sim::pending_handler (sim::pending_signal);
  if (!trace_on)
    return __real__ZN5ginga5Event10transitionENS0_10TransitionE (e, t);
  int before = (int) e->getState ();
  Event *ev = e;
  string id = sim::esc (ev->getObject ()->getId ());
  string key = sim::esc (evt_key (ev));
  trans_depth++;
  bool ok = __real__ZN5ginga5Event10transitionENS0_10TransitionE (e, t);
  trans_depth--;
  // Only requests that did something are logged in full; a refused request
  // is logged too, because a refusal must leave the event as it was.
  sim::out ("X %d %s %s %c %d %d %d\n", trans_depth, id.c_str (),
            key.c_str (), trans_code[t], ok ? 1 : 0, before,
            (int) e->getState ());
  return ok;
}
}

// ------------------------------------------------------------ state dumps

static Formatter *fmt;
static GingaOptions opts;
static std::vector<string> watch;
struct Snap
{
  std::vector<std::pair<string, string> > rows; // event key -> state
  std::vector<string> props;
  string time, pend, z;
  bool seen;
};
static std::map<string, Snap> snaps;
static bool had_doc;

// Several instances in one process: what is above is the current one.
struct Slot
{
  Formatter *fmt = nullptr;
  GingaOptions opts;
  std::vector<string> watch;
  std::map<string, Snap> snaps;
  bool had_doc = false;
  bool init = false;
};
static Slot slots[4];
static int cur_slot;

static void
use_slot (int n)
{
  Slot &o = slots[cur_slot];
  o.fmt = fmt;
  o.opts = opts;
  o.watch.swap (watch);
  o.snaps.swap (snaps);
  o.had_doc = had_doc;
  o.init = true;
  Slot &s = slots[n];
  if (!s.init)
    s.opts = opts;
  fmt = s.fmt;
  opts = s.opts;
  watch.swap (s.watch);
  snaps.swap (s.snaps);
  had_doc = s.had_doc;
  cur_slot = n;
}

static void
dump_state (Document *doc)
{
  string v;
  for (auto &it : snaps)
    it.second.seen = false;
  if (doc != nullptr)
    {
      std::vector<std::pair<string, Object *> > objs;
      objs.reserve (doc->getObjects ()->size ());
      for (Object *o : *doc->getObjects ())
        objs.push_back (std::make_pair (o->getId (), o));
      std::sort (objs.begin (), objs.end ());
      for (auto &io : objs)
        {
          Object *o = io.second;
          Snap &sn = snaps[io.first];
          bool fresh = sn.props.empty () && sn.time.empty ();
          sn.seen = true;
          string id = sim::esc (io.first);
          char buf[64];
          Time t = o->getTime ();
          if (GINGA_TIME_IS_VALID (t))
            snprintf (buf, sizeof buf, "%llu", (unsigned long long) t);
          else
            strcpy (buf, "-");
          if (sn.time != buf)
            {
              sn.time = buf;
              sim::out ("T %s %s\n", id.c_str (), buf);
            }
          // Events: sorted by key so that the output does not depend on
          // where they are in memory.
          std::vector<std::pair<string, char> > evs;
          for (Event *e : *o->getEvents ())
            {
              static const char st[] = { 'O', 'P', 'S' };
              evs.push_back (std::make_pair (evt_key (e),
                                             st[e->getState ()]));
            }
          std::sort (evs.begin (), evs.end ());
          size_t j = 0;
          for (auto &e : evs)
            {
              while (j < sn.rows.size () && sn.rows[j].first < e.first)
                j++;
              if (j < sn.rows.size () && sn.rows[j].first == e.first)
                {
                  if (sn.rows[j].second[0] == e.second)
                    continue;
                  sn.rows[j].second[0] = e.second;
                }
              else
                sn.rows.insert (sn.rows.begin () + j,
                                std::make_pair (e.first,
                                                string (1, e.second)));
              sim::out ("S %s %s %c\n", id.c_str (),
                        sim::esc (e.first).c_str (), e.second);
            }
          sn.props.resize (watch.size ());
          for (size_t i = 0; i < watch.size (); i++)
            {
              v = o->getProperty (watch[i]);
              if (!fresh && v == sn.props[i])
                continue;
              sn.props[i] = v;
              sim::out ("P %s %s %s\n", id.c_str (), watch[i].c_str (),
                        sim::esc (v).c_str ());
            }
          snprintf (buf, sizeof buf, "%zu", o->getDelayedActions ()->size ());
          if (sn.pend != buf)
            {
              sn.pend = buf;
              sim::out ("D %s %s\n", id.c_str (), buf);
            }
          Media *m = dynamic_cast<Media *> (o);
          if (m != nullptr)
            {
              int z = 0, zo = 0;
              bool has = m->getZ (&z, &zo);
              snprintf (buf, sizeof buf, "%d:%d:%d:%d", has, z, zo,
                        m->isFocused ());
              if (sn.z != buf)
                {
                  sn.z = buf;
                  sim::out ("Z %s %s\n", id.c_str (), buf);
                }
            }
        }
    }
  for (auto it = snaps.begin (); it != snaps.end ();)
    {
      if (!it->second.seen)
        it = snaps.erase (it);
      else
        ++it;
    }
  if (doc == nullptr && had_doc)
    sim::out ("GONE\n");
  had_doc = doc != nullptr;
}

static void
dump_structure (Document *doc)
{
  std::map<string, string> lines;
  for (Object *o : *doc->getObjects ())
    {
      string s = o->getObjectTypeAsString ();
      Composition *p = o->getParent ();
      s += " " + (p ? sim::esc (p->getId ()) : string ("-"));
      std::set<string> evs;
      for (Event *e : *o->getEvents ())
        {
          char buf[160];
          Time b, n;
          e->getInterval (&b, &n);
          string param;
          bool hk = e->getParameter ("key", &param);
          snprintf (buf, sizeof buf, "[%llu,%llu]",
                    (unsigned long long) b, (unsigned long long) n);
          evs.insert (sim::esc (evt_key (e)) + buf + sim::esc (e->getLabel ())
                      + (hk ? "k=" + sim::esc (param) : ""));
        }
      for (auto &e : evs)
        s += " " + e;
      lines[o->getId ()] = s;
      Context *c = dynamic_cast<Context *> (o);
      if (c)
        {
          string &l = lines[o->getId ()];
          for (Event *pe : *c->getPorts ())
            l += " port=" + sim::esc (pe->getFullId ());
          for (auto &lk : *c->getLinks ())
            {
              l += " link=";
              for (auto &a : lk.first)
                l += sim::esc (a.event->getFullId ()) + "/"
                     + trans_code[a.transition]
                     + (a.predicate
                            ? "?" + sim::esc (a.predicate->toString ())
                            : "")
                     + ",";
              l += ">";
              for (auto &a : lk.second)
                l += sim::esc (a.event->getFullId ()) + "/"
                     + trans_code[a.transition] + "/" + sim::esc (a.value)
                     + "/" + sim::esc (a.delay) + "/"
                     + sim::esc (a.duration) + ",";
            }
        }
      Switch *sw = dynamic_cast<Switch *> (o);
      if (sw)
        {
          string &l = lines[o->getId ()];
          for (auto &r : *sw->getRules ())
            l += " rule=" + sim::esc (r.first->getId ()) + "?"
                 + sim::esc (r.second->toString ());
          for (auto &sp : *sw->getSwitchPorts ())
            {
              l += " swport=" + sim::esc (sp.first) + ":";
              for (Event *e : sp.second)
                l += sim::esc (e->getFullId ()) + ",";
            }
        }
    }
  for (auto &it : lines)
    sim::out ("O %s %s\n", sim::esc (it.first).c_str (),
              it.second.c_str ());
}

static void
dump_order (Document *doc)
{
  string s;
  for (Object *o : *doc->getObjects ())
    s += " " + sim::esc (o->getId ());
  sim::out ("ORDER%s\n", s.c_str ());
  for (Object *o : *doc->getObjects ())
    {
      string e;
      for (Event *evt : *o->getEvents ())
        e += " " + sim::esc (evt_key (evt));
      sim::out ("EVORDER %s%s\n", sim::esc (o->getId ()).c_str (),
                e.c_str ());
    }
}

// Paints the current frame and reports it: for each colour its bounding box
// and number of pixels, plus a hash of the whole frame.
static void
do_pixels (int w, int h, bool report)
{
  cairo_surface_t *sfc
      = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  fmt->redraw (cr);
  bool ok = cairo_status (cr) == CAIRO_STATUS_SUCCESS;
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  if (report)
    {
      std::map<uint32_t, std::vector<int>> box; // x0 y0 x1 y1 n
      const unsigned char *d = cairo_image_surface_get_data (sfc);
      int stride = cairo_image_surface_get_stride (sfc);
      uint64_t hash = 1469598103934665603ull;
      for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
          {
            uint32_t p;
            memcpy (&p, d + y * stride + x * 4, 4);
            hash = (hash ^ p) * 1099511628211ull;
            auto &b = box[p];
            if (b.empty ())
              b = { x, y, x, y, 0 };
            b[0] = std::min (b[0], x);
            b[1] = std::min (b[1], y);
            b[2] = std::max (b[2], x);
            b[3] = std::max (b[3], y);
            b[4]++;
          }
      sim::out ("PIX %d %016llx\n", ok, (unsigned long long) hash);
      if (box.size () < 64)
        for (auto &it : box)
          sim::out ("C %08x %d %d %d %d %d\n", it.first, it.second[0],
                    it.second[1], it.second[2] - it.second[0] + 1,
                    it.second[3] - it.second[1] + 1, it.second[4]);
    }
  cairo_surface_destroy (sfc);
}

// Paints the current frame at the current size and prints it, run-length
// encoded; equal consecutive rows are merged.
static void
print_image (cairo_surface_t *sfc, int w, int h)
{
  sim::out ("IMG %d %d\n", w, h);
  const unsigned char *d = cairo_image_surface_get_data (sfc);
  int stride = cairo_image_surface_get_stride (sfc);
  int y0 = 0;
  for (int y = 1; y <= h; y++)
    {
      if (y < h
          && memcmp (d + y * stride, d + y0 * stride, (size_t) w * 4) == 0)
        continue;
      string row;
      const uint32_t *p = (const uint32_t *) (d + y0 * stride);
      for (int x = 0, n = 1; x < w; x += n)
        {
          char buf[40];
          for (n = 1; x + n < w && p[x + n] == p[x]; n++)
            ;
          snprintf (buf, sizeof buf, " %d:%x", n, p[x]);
          row += buf;
        }
      sim::out ("I %d %d%s\n", y0, y - y0, row.c_str ());
      y0 = y;
    }
}

static void
do_image ()
{
  int w = fmt->getOptionInt ("width");
  int h = fmt->getOptionInt ("height");
  cairo_surface_t *sfc
      = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, w, h);
  cairo_t *cr = cairo_create (sfc);
  fmt->redraw (cr);
  cairo_destroy (cr);
  cairo_surface_flush (sfc);
  print_image (sfc, w, h);
  cairo_surface_destroy (sfc);
}

// ------------------------------------------------------------ logging

static long log_warnings, log_criticals;

static void
log_handler (const gchar *domain, GLogLevelFlags level, const gchar *msg,
             gpointer)
{
  if (level & G_LOG_FLAG_FATAL)
    {
      fprintf (stderr, "FATAL-LOG %s: %s\n", domain ? domain : "",
               msg);
      fflush (stderr);
    }
  else if (level & G_LOG_LEVEL_CRITICAL)
    {
      log_criticals++;
      sim::out ("G critical %s\n", sim::esc (msg).c_str ());
    }
  else if (level & G_LOG_LEVEL_WARNING)
    log_warnings++;
  if (!(level & G_LOG_FLAG_FATAL))
    sim::gui_log (domain, (int) level, msg);
}

// Waits for something that never happens.
static void
on_stall (int)
{
  static const char m[] = "SIM-STALL\n";
  if (write (2, m, sizeof m - 1))
    {
    }
  _exit (92);
}

static void
on_alarm (int)
{
  static const char m[] = "SIM-HANG\n";
  if (write (2, m, sizeof m - 1))
    {
    }
  _exit (95);
}

// ------------------------------------------------------------ plan

static Document *
cur_doc ()
{
  return fmt ? fmt->getDocument () : nullptr;
}

static Event *
find_event (Object *o, const string &key)
{
  Event::Type t = Event::PRESENTATION;
  switch (key[0])
    {
    case 'A': t = Event::ATTRIBUTION; break;
    case 'S': t = Event::SELECTION; break;
    case 'L': t = Event::LOOKAT; break;
    default: break;
    }
  return o->getEvent (t, key.substr (2));
}

static std::vector<std::vector<string> > prog;
static size_t prog_at;
static int prog_n;

bool
sim::plan_peek (std::vector<string> *a)
{
  if (prog_at >= prog.size ())
    return false;
  *a = prog[prog_at];
  return true;
}

bool
sim::plan_next (std::vector<string> *a)
{
  if (!plan_peek (a))
    return false;
  prog_at++;
  plan_mark ((*a)[0].c_str ());
  return true;
}

void
sim::plan_mark (const char *name)
{
  sim::out ("> %d %s\n", prog_n++, name);
}

void
sim::plan_enter (void *g)
{
  fmt = dynamic_cast<Formatter *> ((Ginga *) g);
  snaps.clear ();
  had_doc = false;
  if (cur_doc () != nullptr)
    {
      dump_order (cur_doc ());
      dump_state (cur_doc ());
    }
  sim::flush ();
}

void
sim::plan_done ()
{
  static Document *last;
  Document *doc = cur_doc ();
  if (doc != last && doc != nullptr && !had_doc)
    {
      snaps.clear ();
      dump_order (doc); // a presentation has begun
    }
  last = doc;
  dump_state (cur_doc ());
  sim::flush ();
}

void
sim::image (void *s, int w, int h)
{
  print_image ((cairo_surface_t *) s, w, h);
}

static GingaOptions
default_opts ()
{
  GingaOptions o;
  o.width = 80;
  o.height = 60;
  o.debug = false;
  o.webservices = false;
  o.experimental = false;
  o.opengl = false;
  o.background = "";
  return o;
}

static void
run_op (const std::vector<string> &a)
{
  const string &op = a[0];
  auto I = [&] (size_t i) {
    return i < a.size () ? atoll (a[i].c_str ()) : 0ll;
  };
  auto U = [&] (size_t i) {
    return i < a.size () ? strtoull (a[i].c_str (), nullptr, 10) : 0ull;
  };
  auto S = [&] (size_t i) { return i < a.size () ? unesc (a[i]) : string (); };
  bool dump = true;

  if (op == "opts")
    {
      opts.width = (int) I (1);
      opts.height = (int) I (2);
      opts.background = S (3);
      opts.debug = I (4) != 0;
      opts.webservices = I (5) != 0;
      dump = false;
    }
  else if (op == "appcfg")
    {
      sim::app_config (atoll (a[1].c_str ()), I (2), I (3), 0);
      dump = false;
    }
  else if (op == "app")
    {
      std::vector<char *> argv;
      for (size_t i = 0; i < a.size (); i++)
        argv.push_back (strdup (i == 0 ? "ginga" : unesc (a[i]).c_str ()));
      argv.push_back (nullptr);
      sim::app_main ((int) a.size (), argv.data ());
      dump = false;
    }
  else if (op == "gui")
    {
      std::vector<char *> argv;
      for (size_t i = 0; i < a.size (); i++)
        argv.push_back (strdup (i == 0 ? "ginga" : unesc (a[i]).c_str ()));
      argv.push_back (nullptr);
      sim::gui_main ((int) a.size (), argv.data ());
      dump = false;
    }
  else if (op == "disk")
    {
      sim::disk_config (I (1), (int) I (2), (int) I (3));
      dump = false;
    }
  else if (op == "power")
    sim::disk_lose_power ();
  else if (op == "gset")
    {
      sim::settings_set (a[1], S (2));
      dump = false;
    }
  else if (op == "ghist")
    {
      std::vector<string> v;
      for (size_t i = 1; i < a.size (); i++)
        v.push_back (unesc (a[i]));
      sim::settings_history (v);
      dump = false;
    }
  else if (op == "gsave" || op == "gload" || op == "gshow")
    {
      long n = sim::disk_ops ();
      if (op == "gsave")
        sim::settings_save ();
      else if (op == "gload")
        sim::settings_load ();
      else
        sim::settings_show ();
      sim::out ("R %ld\n", sim::disk_ops () - n);
      dump = false;
    }
  else if (op == "use")
    {
      use_slot ((int) I (1) & 3);
      dump = false;
    }
  else if (op == "new")
    fmt = new Formatter (&opts);
  else if (op == "create")
    fmt = dynamic_cast<Formatter *> (Ginga::create (I (1) ? nullptr : &opts));
  else if (op == "optget")
    {
      const GingaOptions *o = fmt->getOptions ();
      sim::out ("R %d %d %s %d %d %d %d\n", fmt->getOptionInt ("width"),
                fmt->getOptionInt ("height"),
                sim::esc (fmt->getOptionString ("background")).c_str (),
                fmt->getOptionBool ("debug"),
                fmt->getOptionBool ("experimental"),
                o->width == fmt->getOptionInt ("width")
                    && o->height == fmt->getOptionInt ("height")
                    && o->background == fmt->getOptionString ("background"),
                fmt->getOptionBool ("opengl"));
    }
  else if (op == "delete")
    {
      delete fmt;
      fmt = nullptr;
    }
  else if (op == "start")
    {
      string err = "";
      bool r = fmt->start (S (1), &err);
      sim::out ("R %d %s\n", r, sim::esc (err).c_str ());
      if (r)
        {
          snaps.clear ();
          dump_order (fmt->getDocument ());
          if (I (2))
            dump_structure (fmt->getDocument ());
        }
    }
  else if (op == "stop")
    sim::out ("R %d\n", fmt->stop ());
  else if (op == "tick")
    {
      sim::gst_advance (U (2));
      sim::out ("R %d\n", fmt->sendTick (U (1), U (2), U (3)));
    }
  else if (op == "key")
    sim::out ("R %d\n", fmt->sendKey (S (1), I (2) != 0));
  else if (op == "eos")
    fmt->setEOS (true);
  else if (op == "state")
    sim::out ("R %d %d\n", (int) fmt->getState (), fmt->getEOS ());
  else if (op == "redraw")
    do_pixels (opts.width, opts.height, false);
  else if (op == "img")
    do_image ();
  else if (op == "pix")
    do_pixels ((int) I (1), (int) I (2), true);
  else if (op == "resize")
    fmt->resize ((int) I (1), (int) I (2));
  else if (op == "optint")
    {
      fmt->setOptionInt (S (1), (int) I (2));
      sim::out ("R %d\n", fmt->getOptionInt (S (1)));
    }
  else if (op == "optbool")
    {
      fmt->setOptionBool (S (1), I (2) != 0);
      sim::out ("R %d\n", fmt->getOptionBool (S (1)));
    }
  else if (op == "optstr")
    {
      fmt->setOptionString (S (1), S (2));
      sim::out ("R %s\n", sim::esc (fmt->getOptionString (S (1))).c_str ());
    }
  else if (op == "net")
    {
      int st = -1;
      bool r = sim::net_request (S (1), S (2), S (3), &st);
      sim::out ("R %d %d\n", r, st);
    }
  else if (op == "netdone")
    sim::out ("R %d\n", sim::net_complete ((size_t) I (1), (unsigned) I (2)));
  else if (op == "netcfg")
    {
      sim::net_listen_failures = (int) I (1);
      sim::net_ssdp_fail = I (2) != 0;
      dump = false;
    }
  else if (op == "netstat")
    {
      sim::out ("R %d %d %d\n", sim::net_pending (),
                sim::net_live_sessions (), sim::net_live_servers ());
      dump = false;
    }
  else if (op == "lua")
    sim::out ("R %d\n", sim::lua_post (S (1), S (2), S (3), S (4), S (5)));
  else if (op == "luafail")
    {
      sim::lua_fail_open = I (1) != 0;
      dump = false;
    }
  else if (op == "live")
    {
      sim::out ("R %d %d\n", sim::lua_live (), sim::gst_live ());
      dump = false;
    }
  else if (op == "gst")
    sim::out ("R %d\n", sim::gst_post (S (1), S (2)));
  else if (op == "gstpump")
    sim::gst_pump ();
  else if (op == "gstcfg")
    {
      sim::gst_config (S (1), I (2), (int) I (3));
      dump = false;
    }
  else if (op == "fault")
    {
      sim::IoFault f;
      f.kind = (int) I (1);
      f.at = (int) I (2);
      f.err = (int) I (3);
      f.sub = S (4);
      sim::io_add (f);
      dump = false;
    }
  else if (op == "nofault")
    {
      sim::io_clear ();
      dump = false;
    }
  else if (op == "watch")
    {
      watch.clear ();
      for (size_t i = 1; i < a.size (); i++)
        watch.push_back (unesc (a[i]));
      dump = false;
    }
  else if (op == "mem")
    {
      std::map<string, Snap> ().swap (snaps);
      for (auto &s : slots)
        std::map<string, Snap> ().swap (s.snaps);
      unsigned long long b = sim::arena_live_bytes ();
      unsigned long long n = sim::arena_live_blocks ();
      long long m = (long long) __sanitizer_get_current_allocated_bytes ();
      if (heap_base == 0)
        heap_base = m;          // the paths of a run have any length
      m -= heap_base;
      int fds = 0;
      for (int i = 0; i < 200; i++)
        fds += fcntl (i, F_GETFD) >= 0;
      sim::out ("M %llu %llu %lld %d\n", b, n, m, fds);
      dump = false;
    }
  else if (op == "leaks") // for debugging
    {
      sim::arena_leaks ();
      dump = false;
    }
  else if (op == "tostring")
    {
      size_t n = 0;
      if (cur_doc () == nullptr)
        {
          sim::out ("R none\n");
          return;
        }
      for (Object *o : *cur_doc ()->getObjects ())
        {
          n += o->toString ().size () > 0;
          for (Event *e : *o->getEvents ())
            n += e->toString ().size () > 0;
        }
      sim::out ("R %zu\n", n);
    }
  else if (op == "action" || op == "trans")
    {
      Document *doc = cur_doc ();
      Object *o = doc ? doc->getObjectByIdOrAlias (S (1)) : nullptr;
      Event *e = o ? find_event (o, S (2)) : nullptr;
      if (!e)
        sim::out ("R noevent\n");
      else
        {
          Event::Transition t = Event::getStringAsTransition (S (3));
          int r;
          if (op == "trans")
            r = e->transition (t);
          else
            r = doc->evalAction (e, t, S (4));
          sim::out ("R %d\n", r);
        }
    }
  else if (op == "setprop")
    {
      Document *doc = cur_doc ();
      Object *o = doc ? doc->getObjectByIdOrAlias (S (1)) : nullptr;
      if (!o)
        sim::out ("R noobj\n");
      else
        o->setProperty (S (2), S (3), U (4));
    }
  else if (op == "parse" || op == "parselua")
    {
      string err = "";
      Document *doc;
      if (op == "parse")
        doc = Parser::parseFile (S (1), (int) I (2), (int) I (3), &err);
      else
        doc = ParserLua::parseFile (S (1), &err);
      sim::out ("R %d %s\n", doc != nullptr, sim::esc (err).c_str ());
      if (doc)
        dump_structure (doc);
      delete doc;
    }
  else if (op == "iostat")
    {
      sim::out ("R %ld %ld %ld %ld %ld\n", sim::io_fired (1),
                sim::io_fired (2), sim::io_fired (3), sim::io_fired (4),
                sim::io_fired (5));
      dump = false;
    }
  else if (op == "cwd")
    {
      char b[4096];
      sim::out ("R %s\n", getcwd (b, sizeof b) ? sim::esc (b).c_str () : "?");
      dump = false;
    }
  else
    {
      sim::out ("BADOP %s\n", op.c_str ());
      dump = false;
    }
  if (dump)
    {
      dump_state (cur_doc ());
      static string streams;
      string l = sim::gst_list ();
      if (l != streams)
        sim::out ("V %s\n", l.c_str ());
      streams = l;
    }
}

static int
run_plan (const string &text)
{
  std::istringstream in (text);
  string line;
  uint64_t seed = 0;
  while (std::getline (in, line))
    {
      std::istringstream ls (line);
      std::vector<string> a;
      string t;
      while (ls >> t)
        a.push_back (t);
      if (a.empty () || a[0][0] == '#')
        continue;
      if (a[0] == "alloc")
        seed = strtoull (a[1].c_str (), nullptr, 10);
      else if (a[0] == "dir")
        {
          if (chdir (a[1].c_str ()) != 0)
            {
              sim::out ("BADDIR\n");
              sim::flush ();
              return 93;
            }
          sim::io_set_root (a[1]);
        }
      else if (a[0] == "trace")
        trace_on = atoi (a[1].c_str ()) != 0;
      else
        prog.push_back (a);
    }
  opts = default_opts ();
  sim::arena_begin (seed);
  std::vector<string> a;
  while (sim::plan_next (&a))
    {
      run_op (a);
      sim::flush ();
    }
  sim::out ("LOG %ld %ld\n", log_warnings, log_criticals);
  sim::out ("DONE\n");
  sim::flush ();
  return 0;
}

static bool
read_full (int fd, void *p, size_t n)
{
  char *c = (char *) p;
  while (n > 0)
    {
      ssize_t r = read (fd, c, n);
      if (r < 0 && errno == EINTR)
        continue;
      if (r <= 0)
        return false;
      c += r;
      n -= (size_t) r;
    }
  return true;
}

static bool
read_line (int fd, string *s)
{
  s->clear ();
  char c;
  while (read_full (fd, &c, 1))
    {
      if (c == '\n')
        return true;
      *s += c;
    }
  return false;
}

static void
warmup ()
{
  // Make one-time initialisation (types, tables, fonts) happen before the
  // first fork, so that every child starts from the same state.
  g_setenv ("G_MESSAGES_DEBUG", "", TRUE);
  g_log_set_default_handler (log_handler, nullptr);
  xmlInitParser ();
  sim::gst_seam_init ();
  cairo_surface_t *s = cairo_image_surface_create (CAIRO_FORMAT_ARGB32, 8, 8);
  cairo_t *cr = cairo_create (s);
  PangoLayout *l = pango_cairo_create_layout (cr);
  pango_layout_set_text (l, "warm", -1);
  pango_cairo_show_layout (cr, l);
  g_object_unref (l);
  sim::threads_settle ();
  cairo_destroy (cr);
  cairo_surface_destroy (s);
  SoupMessage *m = soup_message_new ("GET", "http://127.0.0.1/");
  g_object_unref (m);
  GFile *f = g_file_new_for_path ("/dev/null");
  g_object_unref (f);
}

int
main (int argc, char **argv)
{
  out_fd = dup (1);
  int nul = open ("/dev/null", O_RDWR);
  dup2 (nul, 1);
  const char *errfile = argc > 1 ? argv[1] : nullptr;
  warmup ();
  if (access ("/proc/self/task", R_OK) == 0)
    {
      GDir *d = g_dir_open ("/proc/self/task", 0, nullptr);
      int n = 0;
      while (d && g_dir_read_name (d))
        n++;
      if (d)
        g_dir_close (d);
      if (n > 1)
        fprintf (stderr, "simulator: %d threads before fork\n", n);
    }
  string line;
  int served = 0;
  while (read_line (0, &line))
    {
      size_t n = 0;
      if (sscanf (line.c_str (), "PLAN %zu", &n) != 1)
        return 2;
      string text (n, ' ');
      if (!read_full (0, &text[0], n))
        return 3;
      pid_t pid = fork ();
      if (pid == 0)
        {
          if (errfile)
            {
              int e = open (errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
              if (e >= 0)
                {
                  dup2 (e, 2);
                  close (e);
                }
            }
          dup2 (nul, 0);
          signal (SIGPROF, on_alarm); // CPU time, not wall-clock time
          struct rlimit rl = { 0, 0 };
          setrlimit (RLIMIT_CORE, &rl);
          struct itimerval it = { { 0, 0 }, { 20, 0 } };
          setitimer (ITIMER_PROF, &it, nullptr);
          signal (SIGALRM, on_stall);
          alarm (120);
          int rc = run_plan (text);
          _exit (rc);
        }
      int st = 0;
      while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
        {
        }
      out_len = 0;
      sim::out ("END %d %d\n", WIFEXITED (st) ? WEXITSTATUS (st) : -1,
                WIFSIGNALED (st) ? WTERMSIG (st) : 0);
      sim::flush ();
      served++;
    }
  return 0;
}
