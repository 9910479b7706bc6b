ID = 'c21-first-wish-stays'
PROP = 'C21'
NEEDS = 'the position of a video set twice before its stream is ready'
BREAKS = 'the stream goes to the position that was set first'
EDITS = [
    ('lib/PlayerVideo.cpp', r"""  PlayerVideoAction act;
  act.code = code;
""",
     r"""  for (auto &it : _stack_actions)
    if (it.code == code)
      return; // already waiting
  PlayerVideoAction act;
  act.code = code;
"""),
]
DEMO = r'''
// Stands in for the parts of GStreamer that are not installed.
#include <gst/gst.h>
static GstState state = GST_STATE_READY;
static gint64 position = -1;
static GstBusFunc watch;
static gpointer watch_data;
static GstElement *playbin;
extern "C" {
GstElement *
gst_element_factory_make (const gchar *what, const gchar *name)
{
  if (string (what) == "audiopanorama")
    return nullptr;
  GstElement *e = gst_bin_new (name);
  if (string (what) == "playbin")
    playbin = e = gst_pipeline_new (name);
  return e;
}
gboolean gst_element_link (GstElement *, GstElement *) { return TRUE; }
GstPad *gst_element_get_static_pad (GstElement *, const gchar *)
{ return gst_pad_new ("x", GST_PAD_SINK); }
GstStateChangeReturn
gst_element_get_state (GstElement *, GstState *a, GstState *b, GstClockTime)
{
  if (a) *a = state;
  if (b) *b = GST_STATE_VOID_PENDING;
  return GST_STATE_CHANGE_SUCCESS;
}
gboolean
gst_element_seek (GstElement *, gdouble, GstFormat, GstSeekFlags, GstSeekType,
                  gint64 start, GstSeekType, gint64)
{
  position = start;
  return TRUE;
}
gboolean gst_element_query_position (GstElement *, GstFormat, gint64 *p)
{ *p = 0; return TRUE; }
gboolean gst_element_query_duration (GstElement *, GstFormat, gint64 *p)
{ *p = 60 * GST_SECOND; return TRUE; }
guint gst_bus_add_watch (GstBus *, GstBusFunc f, gpointer d)
{ watch = f; watch_data = d; return 1; }
}

void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='m'/><media id='m' "
                  "src='x.mp4'/></body></ncl>"));
  d.tick (0);
  d.obj ("m")->setProperty ("time", "5s");
  d.obj ("m")->setProperty ("time", "20s");
  state = GST_STATE_PLAYING;
  GstBus *bus = gst_bus_new ();
  GstMessage *msg = gst_message_new_state_changed (
      GST_OBJECT (playbin), GST_STATE_PAUSED, GST_STATE_PLAYING,
      GST_STATE_VOID_PENDING);
  CHECK (watch != nullptr);
  watch (bus, msg, watch_data);
  CHECK (position == (gint64) (20 * GST_SECOND));
}
'''
