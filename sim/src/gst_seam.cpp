// Simulated GStreamer elements on the real GStreamer core.
//
// Objects, reference counts, states, bins, buses, messages, caps and samples
// are GStreamer's own.  The elements the players ask the factory for are
// replaced: a "playbin" that plays a stream with a position, a duration and
// coloured pictures, advanced by the ticks of the simulator; filters that
// only keep their properties; sinks that take no time.  Nothing here has a
// thread: what a streaming thread would do happens in gst_advance() and in
// the operation "gst", and messages reach the player when the simulator runs
// the main loop ("gstpump").

#include "sim.h"
#include <algorithm>
#include <deque>
#include <dlfcn.h>
#include <list>
#include <map>
#include <math.h>
#include <set>
#include <string.h>

#include <gst/app/gstappsink.h>
#include <gst/gst.h>
#include <gst/video/video.h>

using std::string;

namespace {

const gint64 FRAME = 40 * GST_MSECOND;

struct Cfg
{
  gint64 dur = -1;        // length of the stream
  bool slow = false;      // prerolls in the background
  bool noquery = false;   // position and duration are not known
  bool noframes = false;  // sound only
  bool noseek = false;    // seeks fail
};

std::map<string, Cfg> cfgs;
bool tone_fails = false;  // tones cannot be started

string
base_of (const string &s)
{
  size_t i = s.rfind ('/');
  return i == string::npos ? s : s.substr (i + 1);
}

struct Stream
{
  string uri;
  double volume = 1.0;
  gboolean mute = FALSE;
  gint64 pos = 0;
  double rate = 1.0;
  bool ended = false;
  bool async = false;      // preroll has not finished
  gint64 pushed = -1;      // last picture pushed into the sink
  GstElement *vsink = nullptr;
  GstElement *afilter = nullptr;
  GstElement *asink = nullptr;
  Cfg cfg () { return cfgs[base_of (uri)]; }
};

struct SimPlaybin
{
  GstPipeline parent;
  Stream *s;
};
struct SimPlaybinClass
{
  GstPipelineClass parent;
};

std::list<GstElement *> pipelines;  // in order of creation, weak
std::map<GstElement *, Stream *> streams;

// What a sink has received.
struct Sink
{
  std::deque<GstSample *> q;
  GstAppSinkCallbacks cb;
  gpointer data = nullptr;
  GDestroyNotify notify = nullptr;
  Sink () { memset (&cb, 0, sizeof cb); }
};
std::map<GstElement *, Sink> sinks;

void
forget (gpointer, GObject *dead)
{
  pipelines.remove ((GstElement *) dead);
}

void
sink_clear (Sink &k)
{
  for (GstSample *s : k.q)
    gst_sample_unref (s);
  k.q.clear ();
}

// ---------------------------------------------------------------- samples

GstSample *
picture (guint32 rgb)
{
  const int n = 16;
  GstBuffer *b = gst_buffer_new_allocate (nullptr, n * n * 4, nullptr);
  GstMapInfo m;
  if (gst_buffer_map (b, &m, GST_MAP_WRITE))
    {
      guint32 *p = (guint32 *) m.data;
      for (int i = 0; i < n * n; i++)
        p[i] = 0xff000000u | rgb;
      gst_buffer_unmap (b, &m);
    }
  GstCaps *c = gst_caps_new_simple (
      "video/x-raw", "format", G_TYPE_STRING, "BGRA", "width", G_TYPE_INT, n,
      "height", G_TYPE_INT, n, "framerate", GST_TYPE_FRACTION, 25, 1,
      nullptr);
  GstSample *s = gst_sample_new (b, c, nullptr, nullptr);
  gst_caps_unref (c);
  gst_buffer_unref (b);
  return s;
}

void
sink_push (GstElement *e, GstSample *s)
{
  Sink &k = sinks[e];
  guint max = 0;
  gboolean drop = FALSE;
  g_object_get (e, "max-buffers", &max, "drop", &drop, nullptr);
  if (max > 0 && k.q.size () >= max)
    {
      if (!drop)
        {
          gst_sample_unref (s); // arrives late: dropped upstream
          return;
        }
      gst_sample_unref (k.q.front ());
      k.q.pop_front ();
    }
  k.q.push_back (s);
  if (k.cb.new_sample)
    k.cb.new_sample (GST_APP_SINK (e), k.data);
}

GstElement *
find_sink (GstElement *bin)
{
  if (bin == nullptr)
    return nullptr;
  for (auto &it : sinks)
    for (GstObject *o = GST_OBJECT (it.first); o; o = GST_OBJECT_PARENT (o))
      if (o == GST_OBJECT (bin))
        return it.first;
  return nullptr;
}

const guint32 PAL[8] = { 0xff0000, 0x00ff00, 0x0000ff, 0xffff00,
                         0x00ffff, 0xffffff, 0x285078, 0xc86400 };

void
stream_push (GstElement *e, Stream *s)
{
  if (s->cfg ().noframes || s->ended)
    return;
  gint64 n = s->pos / FRAME;
  if (n == s->pushed)
    return;
  GstElement *k = find_sink (s->vsink);
  if (k == nullptr)
    return;
  // Those that were due since the last one, but not forever.
  gint64 from = (s->pushed >= 0 && n > s->pushed) ? s->pushed + 1 : n;
  if (n - from > 40)
    from = n - 40;
  unsigned h = 0;
  for (char c : base_of (s->uri))
    h += (unsigned char) c;
  for (gint64 i = from; i <= n; i++)
    sink_push (k, picture (PAL[(h + (gulong) i) % 8]));
  s->pushed = n;
  (void) e;
}

// ---------------------------------------------------------------- playbin

enum { PB_0, PB_URI, PB_VSINK, PB_VOLUME, PB_MUTE, PB_AFILTER, PB_ASINK };
GstPipelineClass *pb_parent;

Stream *
PB (gpointer o)
{
  return ((SimPlaybin *) o)->s;
}

void
pb_replace (GObject *o, GstElement **slot, GstElement *e)
{
  if (*slot)
    gst_bin_remove (GST_BIN (o), *slot);
  *slot = e;
  if (e)
    gst_bin_add (GST_BIN (o), e);
}

void
pb_set (GObject *o, guint id, const GValue *v, GParamSpec *ps)
{
  Stream *s = PB (o);
  switch (id)
    {
    case PB_URI:
      {
        const char *u = g_value_get_string (v);
        s->uri = u ? u : "";
        break;
      }
    case PB_VSINK:
      pb_replace (o, &s->vsink, (GstElement *) g_value_get_object (v));
      break;
    case PB_AFILTER:
      pb_replace (o, &s->afilter, (GstElement *) g_value_get_object (v));
      break;
    case PB_ASINK:
      pb_replace (o, &s->asink, (GstElement *) g_value_get_object (v));
      break;
    case PB_VOLUME:
      s->volume = g_value_get_double (v);
      break;
    case PB_MUTE:
      s->mute = g_value_get_boolean (v);
      break;
    default:
      G_OBJECT_WARN_INVALID_PROPERTY_ID (o, id, ps);
    }
}

void
pb_get (GObject *o, guint id, GValue *v, GParamSpec *ps)
{
  Stream *s = PB (o);
  switch (id)
    {
    case PB_URI: g_value_set_string (v, s->uri.c_str ()); break;
    case PB_VSINK: g_value_set_object (v, s->vsink); break;
    case PB_AFILTER: g_value_set_object (v, s->afilter); break;
    case PB_ASINK: g_value_set_object (v, s->asink); break;
    case PB_VOLUME: g_value_set_double (v, s->volume); break;
    case PB_MUTE: g_value_set_boolean (v, s->mute); break;
    default:
      G_OBJECT_WARN_INVALID_PROPERTY_ID (o, id, ps);
    }
}

void
pb_settled (GstElement *e, Stream *s)
{
  if (GST_STATE (e) == GST_STATE_PLAYING)
    stream_push (e, s);
}

GstStateChangeReturn
pb_change (GstElement *e, GstStateChange t)
{
  Stream *s = PB (e);
  GstStateChangeReturn r
      = GST_ELEMENT_CLASS (pb_parent)->change_state (e, t);
  if (r == GST_STATE_CHANGE_FAILURE)
    return r;
  switch (t)
    {
    case GST_STATE_CHANGE_READY_TO_PAUSED:
      s->pos = 0;
      s->rate = 1.0;
      s->ended = false;
      s->pushed = -1;
      if (s->cfg ().slow)
        {
          s->async = true;
          return GST_STATE_CHANGE_ASYNC;
        }
      break;
    case GST_STATE_CHANGE_PAUSED_TO_READY:
      s->async = false;
      s->pos = 0;
      if (GstElement *k = find_sink (s->vsink))
        sink_clear (sinks[k]);
      break;
    case GST_STATE_CHANGE_PAUSED_TO_PLAYING:
      stream_push (e, s);
      break;
    default:
      break;
    }
  return r;
}

void
pb_preroll (GstElement *e)
{
  Stream *s = PB (e);
  if (!s->async)
    return;
  s->async = false;
  GST_STATE_LOCK (e);
  gst_element_continue_state (e, GST_STATE_CHANGE_SUCCESS);
  GST_STATE_UNLOCK (e);
  gst_element_post_message (
      e, gst_message_new_async_done (GST_OBJECT (e), GST_CLOCK_TIME_NONE));
}

gboolean
pb_event (GstElement *e, GstEvent *ev)
{
  Stream *s = PB (e);
  gboolean ok = FALSE;
  if (GST_EVENT_TYPE (ev) == GST_EVENT_SEEK)
    {
      gdouble rate;
      GstFormat f;
      GstSeekFlags fl;
      GstSeekType st, et;
      gint64 start, stop;
      gst_event_parse_seek (ev, &rate, &f, &fl, &st, &start, &et, &stop);
      GstState cur = GST_STATE (e);
      if (cur >= GST_STATE_PAUSED && !s->async && f == GST_FORMAT_TIME
          && !s->cfg ().noseek)
        {
          gint64 dur = s->cfg ().dur;
          s->rate = rate;
          if (st == GST_SEEK_TYPE_SET && rate > 0)
            s->pos = start;
          else if (rate < 0)
            s->pos = et == GST_SEEK_TYPE_SET ? stop : dur >= 0 ? dur : s->pos;
          s->pos = std::max (s->pos, (gint64) 0);
          if (dur >= 0)
            s->pos = std::min (s->pos, dur);
          s->ended = false;
          s->pushed = -1;
          if (fl & GST_SEEK_FLAG_FLUSH)
            if (GstElement *k = find_sink (s->vsink))
              sink_clear (sinks[k]);
          pb_settled (e, s);
          ok = TRUE;
        }
    }
  gst_event_unref (ev);
  return ok;
}

gboolean
pb_query (GstElement *e, GstQuery *q)
{
  Stream *s = PB (e);
  if (s->cfg ().noquery || GST_STATE (e) < GST_STATE_PAUSED || s->async)
    return FALSE;
  switch (GST_QUERY_TYPE (q))
    {
    case GST_QUERY_POSITION:
      gst_query_set_position (q, GST_FORMAT_TIME, s->pos);
      return TRUE;
    case GST_QUERY_DURATION:
      if (s->cfg ().dur < 0)
        return FALSE;
      gst_query_set_duration (q, GST_FORMAT_TIME, s->cfg ().dur);
      return TRUE;
    default:
      return FALSE;
    }
}

void
pb_finalize (GObject *o)
{
  streams.erase ((GstElement *) o);
  delete ((SimPlaybin *) o)->s;
  G_OBJECT_CLASS (pb_parent)->finalize (o);
}

void
pb_class (gpointer k, gpointer)
{
  GObjectClass *g = (GObjectClass *) k;
  GstElementClass *c = (GstElementClass *) k;
  pb_parent = (GstPipelineClass *) g_type_class_peek_parent (k);
  g->set_property = pb_set;
  g->get_property = pb_get;
  g->finalize = pb_finalize;
  c->change_state = pb_change;
  c->send_event = pb_event;
  c->query = pb_query;
  GParamFlags rw = (GParamFlags) (G_PARAM_READWRITE);
  auto add = [&] (guint id, GParamSpec *p) {
    g_object_class_install_property (g, id, p);
  };
  add (PB_URI, g_param_spec_string ("uri", "", "", nullptr, rw));
  add (PB_VSINK, g_param_spec_object ("video-sink", "", "",
                                      GST_TYPE_ELEMENT, rw));
  add (PB_AFILTER, g_param_spec_object ("audio-filter", "", "",
                                        GST_TYPE_ELEMENT, rw));
  add (PB_ASINK, g_param_spec_object ("audio-sink", "", "",
                                      GST_TYPE_ELEMENT, rw));
  add (PB_VOLUME, g_param_spec_double ("volume", "", "", 0.0, 10.0, 1.0, rw));
  add (PB_MUTE, g_param_spec_boolean ("mute", "", "", FALSE, rw));
}

void
pb_init (GTypeInstance *o, gpointer)
{
  ((SimPlaybin *) o)->s = new Stream;
  streams[(GstElement *) o] = ((SimPlaybin *) o)->s;
}

// ------------------------------------------------------------ other elements

struct SimElement
{
  GstElement parent;
};
struct SimElementClass
{
  GstElementClass parent;
};

struct PropDef
{
  const char *factory;
  const char *name;
  GType type;
  double def;
};
const PropDef PROPS[] = {
  { "audiotestsrc", "freq", G_TYPE_DOUBLE, 440 },
  { "audiotestsrc", "wave", G_TYPE_INT, 0 },
  { "audiotestsrc", "volume", G_TYPE_DOUBLE, 0.8 },
  { "audiopanorama", "panorama", G_TYPE_FLOAT, 0 },
  { "equalizer-3bands", "band0", G_TYPE_DOUBLE, 0 },
  { "equalizer-3bands", "band1", G_TYPE_DOUBLE, 0 },
  { "equalizer-3bands", "band2", G_TYPE_DOUBLE, 0 },
  { "volume", "volume", G_TYPE_DOUBLE, 1 },
  { "volume", "mute", G_TYPE_BOOLEAN, 0 },
};
std::map<GType, string> kinds;                    // type -> factory
std::map<GstElement *, std::map<string, double>> values;
std::set<GstElement *> elements;
GObjectClass *el_parent;

string
kind_of (GstElement *e)
{
  auto it = kinds.find (G_OBJECT_TYPE (e));
  return it == kinds.end () ? "" : it->second;
}

void
el_set (GObject *o, guint, const GValue *v, GParamSpec *ps)
{
  double d = 0;
  if (G_VALUE_HOLDS_DOUBLE (v))
    d = g_value_get_double (v);
  else if (G_VALUE_HOLDS_FLOAT (v))
    d = g_value_get_float (v);
  else if (G_VALUE_HOLDS_INT (v))
    d = g_value_get_int (v);
  else if (G_VALUE_HOLDS_BOOLEAN (v))
    d = g_value_get_boolean (v);
  values[(GstElement *) o][ps->name] = d;
}

double
el_value (GstElement *e, const char *name)
{
  auto &m = values[e];
  auto it = m.find (name);
  if (it != m.end ())
    return it->second;
  string k = kind_of (e);
  for (const PropDef &p : PROPS)
    if (k == p.factory && !strcmp (p.name, name))
      return p.def;
  return 0;
}

void
el_get (GObject *o, guint, GValue *v, GParamSpec *ps)
{
  double d = el_value ((GstElement *) o, ps->name);
  if (G_VALUE_HOLDS_DOUBLE (v))
    g_value_set_double (v, d);
  else if (G_VALUE_HOLDS_FLOAT (v))
    g_value_set_float (v, (float) d);
  else if (G_VALUE_HOLDS_INT (v))
    g_value_set_int (v, (int) d);
  else if (G_VALUE_HOLDS_BOOLEAN (v))
    g_value_set_boolean (v, d != 0);
}

GstStateChangeReturn
el_change (GstElement *e, GstStateChange t)
{
  if (tone_fails && kind_of (e) == "audiotestsrc"
      && t == GST_STATE_CHANGE_READY_TO_PAUSED)
    return GST_STATE_CHANGE_FAILURE;
  return GST_STATE_CHANGE_SUCCESS;
}

GstPad *
el_request (GstElement *e, GstPadTemplate *t, const gchar *name,
            const GstCaps *)
{
  static unsigned serial;
  string n = name ? name : "src_" + std::to_string (serial++);
  GstPad *p = gst_pad_new_from_template (t, n.c_str ());
  gst_element_add_pad (e, p);
  return p;
}

void
el_release (GstElement *e, GstPad *p)
{
  gst_element_remove_pad (e, p);
}

void
el_finalize (GObject *o)
{
  values.erase ((GstElement *) o);
  elements.erase ((GstElement *) o);
  el_parent->finalize (o);
}

GstStaticPadTemplate t_sink = GST_STATIC_PAD_TEMPLATE (
    "sink", GST_PAD_SINK, GST_PAD_ALWAYS, GST_STATIC_CAPS_ANY);
GstStaticPadTemplate t_src = GST_STATIC_PAD_TEMPLATE (
    "src", GST_PAD_SRC, GST_PAD_ALWAYS, GST_STATIC_CAPS_ANY);
GstStaticPadTemplate t_req = GST_STATIC_PAD_TEMPLATE (
    "src_%u", GST_PAD_SRC, GST_PAD_REQUEST, GST_STATIC_CAPS_ANY);

bool
has_sink (const string &f)
{
  return f.find ("testsrc") == string::npos;
}

bool
has_src (const string &f)
{
  return f != "tee"
         && (f.size () < 4 || f.compare (f.size () - 4, 4, "sink") != 0);
}

void
el_class (gpointer k, gpointer data)
{
  string f = (const char *) data;
  GObjectClass *g = (GObjectClass *) k;
  GstElementClass *c = (GstElementClass *) k;
  el_parent = (GObjectClass *) g_type_class_peek (GST_TYPE_ELEMENT);
  g->set_property = el_set;
  g->get_property = el_get;
  g->finalize = el_finalize;
  c->change_state = el_change;
  c->request_new_pad = el_request;
  c->release_pad = el_release;
  if (has_sink (f))
    gst_element_class_add_static_pad_template (c, &t_sink);
  if (has_src (f))
    gst_element_class_add_static_pad_template (c, &t_src);
  if (f == "tee")
    gst_element_class_add_static_pad_template (c, &t_req);
  guint id = 1;
  GParamFlags rw = (GParamFlags) (G_PARAM_READWRITE);
  if (f == "capsfilter")
    g_object_class_install_property (
        g, id++, g_param_spec_boxed ("caps", "", "", GST_TYPE_CAPS, rw));
  for (const PropDef &p : PROPS)
    if (f == p.factory)
      {
        GParamSpec *s
            = p.type == G_TYPE_DOUBLE
                  ? g_param_spec_double (p.name, "", "", -1e6, 1e6, p.def, rw)
              : p.type == G_TYPE_FLOAT
                  ? g_param_spec_float (p.name, "", "", -1, 1, 0, rw)
              : p.type == G_TYPE_INT
                  ? g_param_spec_int (p.name, "", "", 0, 12, 0, rw)
                  : g_param_spec_boolean (p.name, "", "", FALSE, rw);
        g_object_class_install_property (g, id++, s);
      }
}

void
el_init (GTypeInstance *o, gpointer k)
{
  GstElement *e = (GstElement *) o;
  elements.insert (e);
  GstElementClass *c = (GstElementClass *) k;
  for (const char *n : { "sink", "src" })
    if (GstPadTemplate *t = gst_element_class_get_pad_template (c, n))
      gst_element_add_pad (e, gst_pad_new_from_template (t, n));
}

// ---------------------------------------------------------------- appsink

GObjectClass *as_parent;

GstStateChangeReturn
as_change (GstElement *, GstStateChange)
{
  return GST_STATE_CHANGE_SUCCESS;
}

gboolean
as_event (GstElement *e, GstEvent *ev)
{
  for (auto &it : streams)
    if (it.second->vsink && find_sink (it.second->vsink) == e)
      return gst_element_send_event (it.first, ev);
  gst_event_unref (ev);
  return FALSE;
}

void
as_finalize (GObject *o)
{
  auto it = sinks.find ((GstElement *) o);
  if (it != sinks.end ())
    {
      sink_clear (it->second);
      if (it->second.notify)
        it->second.notify (it->second.data);
      sinks.erase (it);
    }
  as_parent->finalize (o);
}

void
as_class (gpointer k, gpointer)
{
  as_parent = (GObjectClass *) g_type_class_peek_parent (k);
  ((GObjectClass *) k)->finalize = as_finalize;
  ((GstElementClass *) k)->change_state = as_change;
  ((GstElementClass *) k)->send_event = as_event;
}

void
as_init (GTypeInstance *o, gpointer)
{
  sinks[(GstElement *) o];
}

// ---------------------------------------------------------------- types

GType
type_of (const string &f)
{
  static std::map<string, GType> types;
  auto it = types.find (f);
  if (it != types.end ())
    return it->second;
  GTypeInfo i;
  memset (&i, 0, sizeof i);
  GType parent = GST_TYPE_ELEMENT;
  string name = "Sim-" + f;
  if (f == "playbin")
    {
      parent = GST_TYPE_PIPELINE;
      i.class_size = sizeof (SimPlaybinClass);
      i.class_init = pb_class;
      i.instance_size = sizeof (SimPlaybin);
      i.instance_init = pb_init;
    }
  else if (f == "appsink")
    {
      parent = GST_TYPE_APP_SINK;
      i.class_size = sizeof (GstAppSinkClass);
      i.class_init = as_class;
      i.instance_size = sizeof (GstAppSink);
      i.instance_init = as_init;
    }
  else
    {
      i.class_size = sizeof (SimElementClass);
      i.class_init = el_class;
      i.class_data = strdup (f.c_str ());
      i.instance_size = sizeof (SimElement);
      i.instance_init = el_init;
    }
  GType t = g_type_register_static (parent, name.c_str (), &i,
                                    (GTypeFlags) 0);
  types[f] = t;
  kinds[t] = f;
  return t;
}

const char *FACTORIES[]
    = { "playbin", "appsink", "capsfilter", "audiotestsrc", "audioconvert",
        "audioresample", "tee", "queue", "alsasink", "autoaudiosink",
        "fakesink", "spectrascope", "videoconvert", "audiopanorama",
        "equalizer-3bands", "volume" };

template <typename F>
F
next (const char *n)
{
  return (F) dlsym (RTLD_NEXT, n);
}

void
collect (GstElement *top, std::list<GstElement *> &out)
{
  for (GstElement *e : elements)
    for (GstObject *o = GST_OBJECT (e); o; o = GST_OBJECT_PARENT (o))
      if (o == GST_OBJECT (top))
        {
          out.push_back (e);
          break;
        }
}

const char *
state_name (GstElement *e)
{
  return gst_element_state_get_name (GST_STATE_TARGET (e));
}

}

// ------------------------------------------------------- replaced functions

extern "C" {

GstElement *
gst_element_factory_make (const gchar *factory, const gchar *name)
{
  bool known = false;
  for (const char *f : FACTORIES)
    known = known || !strcmp (f, factory);
  if (!known)
    return nullptr;
  GstElement *e = (GstElement *) g_object_new (type_of (factory), "name",
                                               name, nullptr);
  if (!strcmp (factory, "playbin"))
    {
      pipelines.push_back (e);
      g_object_weak_ref (G_OBJECT (e), forget, nullptr);
    }
  return e;
}

GstElement *
gst_pipeline_new (const gchar *name)
{
  GstElement *e
      = next<GstElement *(*) (const gchar *)> ("gst_pipeline_new") (name);
  pipelines.push_back (e);
  g_object_weak_ref (G_OBJECT (e), forget, nullptr);
  return e;
}

GstStateChangeReturn
gst_element_get_state (GstElement *e, GstState *s, GstState *p,
                       GstClockTime timeout)
{
  // Whoever waits is woken up by the end of the preroll.
  if (timeout != 0 && streams.count (e))
    pb_preroll (e);
  return next<GstStateChangeReturn (*) (GstElement *, GstState *, GstState *,
                                        GstClockTime)> (
      "gst_element_get_state") (e, s, p, timeout);
}

GstSample *
gst_app_sink_try_pull_sample (GstAppSink *a, GstClockTime)
{
  Sink &k = sinks[(GstElement *) a];
  if (k.q.empty ())
    return nullptr;
  GstSample *s = k.q.front ();
  k.q.pop_front ();
  return s;
}

GstSample *
gst_app_sink_pull_sample (GstAppSink *a)
{
  return gst_app_sink_try_pull_sample (a, 0);
}

void
gst_app_sink_set_callbacks (GstAppSink *a, GstAppSinkCallbacks *cb,
                            gpointer data, GDestroyNotify notify)
{
  Sink &k = sinks[(GstElement *) a];
  k.cb = *cb;
  k.data = data;
  k.notify = notify;
}
}

// ---------------------------------------------------------------- interface

namespace sim {

void
gst_seam_init ()
{
  gst_init (nullptr, nullptr);
  for (const char *f : FACTORIES)
    {
      GType t = type_of (f);
      g_type_class_unref (g_type_class_ref (t));
    }
  // Everything that is made only once.
  GstElement *e = gst_element_factory_make ("playbin", "x");
  GstBus *b = gst_pipeline_get_bus (GST_PIPELINE (e));
  gst_object_unref (b);
  gst_element_set_state (e, GST_STATE_PLAYING);
  gst_element_set_state (e, GST_STATE_NULL);
  gst_object_unref (e);
  e = gst_pipeline_new ("x");
  gst_element_set_state (e, GST_STATE_PLAYING);
  gst_element_set_state (e, GST_STATE_NULL);
  gst_object_unref (e);
  GstSample *s = picture (0);
  GstVideoInfo v;
  gst_video_info_from_caps (&v, gst_sample_get_caps (s));
  gst_sample_unref (s);
  while (g_main_context_iteration (nullptr, FALSE))
    {
    }
}

void
gst_config (const string &uri, long long dur, int flags)
{
  if (uri == "tone")
    {
      tone_fails = flags != 0;
      return;
    }
  Cfg &c = cfgs[uri];
  c.dur = dur;
  c.slow = flags & 1;
  c.noquery = flags & 2;
  c.noframes = flags & 4;
  c.noseek = flags & 8;
}

void
gst_advance (uint64_t diff)
{
  std::list<GstElement *> l = pipelines;
  for (GstElement *e : l)
    {
      if (GST_STATE (e) != GST_STATE_PLAYING)
        continue;
      if (!streams.count (e))
        {
          for (auto &it : sinks) // the scope of a tone
            for (GstObject *o = GST_OBJECT (it.first); o;
                 o = GST_OBJECT_PARENT (o))
              if (o == GST_OBJECT (e) && diff > 0)
                sink_push (it.first, picture (0x808080));
          continue;
        }
      Stream *s = streams[e];
      if (s->ended)
        continue;
      gint64 dur = s->cfg ().dur;
      s->pos += (gint64) ((double) diff * s->rate);
      bool end = false;
      if (s->rate > 0 && dur >= 0 && s->pos >= dur)
        {
          s->pos = dur;
          end = true;
        }
      else if (s->rate < 0 && s->pos <= 0)
        {
          s->pos = 0;
          end = true;
        }
      stream_push (e, s);
      if (end)
        {
          s->ended = true;
          gst_element_post_message (e, gst_message_new_eos (GST_OBJECT (e)));
        }
    }
}

bool
gst_post (const string &uri, const string &what)
{
  bool any = false;
  std::list<GstElement *> l = pipelines;
  for (GstElement *e : l)
    {
      auto it = streams.find (e);
      if (uri != (it == streams.end () ? "tone" : base_of (it->second->uri)))
        continue;
      any = true;
      GstObject *o = GST_OBJECT (e);
      GstMessage *m = nullptr;
      if (what == "ready" && it != streams.end ())
        pb_preroll (e);
      else if (what == "warning")
        {
          GError *err = g_error_new_literal (GST_STREAM_ERROR,
                                             GST_STREAM_ERROR_DECODE, "odd");
          m = gst_message_new_warning (o, err, "debug");
          g_error_free (err);
        }
      else if (what == "info")
        {
          GError *err = g_error_new_literal (GST_STREAM_ERROR,
                                             GST_STREAM_ERROR_DECODE, "info");
          m = gst_message_new_info (o, err, "debug");
          g_error_free (err);
        }
      else if (what == "buffering")
        m = gst_message_new_buffering (o, 42);
      else if (what == "duration")
        m = gst_message_new_duration_changed (o);
      else if (what == "clock")
        m = gst_message_new_new_clock (o, nullptr);
      else if (what == "eos" && GST_STATE (e) >= GST_STATE_PAUSED)
        {
          if (it != streams.end ())
            it->second->ended = true;
          m = gst_message_new_eos (o);
        }
      if (m)
        gst_element_post_message (e, m);
    }
  return any;
}

void
gst_pump ()
{
  while (g_main_context_iteration (nullptr, FALSE))
    {
    }
}

int
gst_live ()
{
  return (int) (pipelines.size () + sinks.size () + elements.size ());
}

string
gst_list ()
{
  std::list<string> l;
  char buf[512];
  for (GstElement *e : pipelines)
    {
      std::list<GstElement *> in;
      collect (e, in);
      auto it = streams.find (e);
      if (it == streams.end ())
        {
          double f = 0, w = 0, v = 1;
          for (GstElement *x : in)
            {
              if (kind_of (x) == "audiotestsrc")
                {
                  f = el_value (x, "freq");
                  w = el_value (x, "wave");
                  v *= el_value (x, "volume");
                }
              if (kind_of (x) == "volume")
                v *= el_value (x, "volume");
            }
          snprintf (buf, sizeof buf, "tone:%s:%.6g:%.6g:%.6g",
                    state_name (e), f, w, v);
        }
      else
        {
          Stream *s = it->second;
          double v = s->volume, pan = 0, b[3] = { 0, 0, 0 };
          bool m = s->mute;
          for (GstElement *x : in)
            {
              string k = kind_of (x);
              if (k == "volume")
                {
                  v *= el_value (x, "volume");
                  m = m || el_value (x, "mute") != 0;
                }
              else if (k == "audiopanorama")
                pan += el_value (x, "panorama");
              else if (k == "equalizer-3bands")
                for (int i = 0; i < 3; i++)
                  b[i] += el_value (
                      x, ("band" + std::to_string (i)).c_str ());
            }
          snprintf (buf, sizeof buf,
                    "video:%s:%s:%lld:%.6g:%.6g:%d:%.4g:%.6g:%.6g:%.6g",
                    base_of (s->uri).c_str (), state_name (e),
                    (long long) s->pos, s->rate, v, m, pan, b[0], b[1],
                    b[2]);
        }
      l.push_back (esc (buf));
    }
  l.sort ();
  string out;
  for (const string &s : l)
    out += (out.empty () ? "" : "|") + s;
  return out;
}

}
