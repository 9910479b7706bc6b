// Simulated NCLua engine, SSDP and HTTP endpoints.

#include "sim.h"
#include <algorithm>
#include <cairo.h>
#include <deque>
#include <list>
#include <map>
#include <string.h>
#include <unistd.h>

#include <libsoup/soup.h>
#include <libgssdp/gssdp.h>
#include <ncluaw.h>

using std::string;

// ---------------------------------------------------------------- NCLua

struct _ncluaw_t
{
  int serial;
  string file;
  std::deque<ncluaw_event_t *> outq;
  cairo_surface_t *sfc;
};

namespace sim {

bool lua_fail_open = false;
static std::list<ncluaw_t *> lua_states;
static int lua_serial;

static string
basename_of (const string &s)
{
  size_t i = s.rfind ('/');
  return i == string::npos ? s : s.substr (i + 1);
}

static string
cwd ()
{
  char buf[4096];
  if (!getcwd (buf, sizeof buf))
    return "?";
  return buf;
}

int
lua_live ()
{
  return (int) lua_states.size ();
}

bool
lua_post (const string &file, const string &type, const string &action,
          const string &name, const string &value)
{
  for (ncluaw_t *nw : lua_states)
    if (nw->file == file)
      {
        ncluaw_event_t *e = g_new0 (ncluaw_event_t, 1);
        if (type == "user")
          e->cls = NCLUAW_EVENT_USER;
        else
          {
            e->cls = NCLUAW_EVENT_NCL;
            e->u.ncl.type = g_strdup (type.c_str ());
            e->u.ncl.action = g_strdup (action.c_str ());
            e->u.ncl.name = g_strdup (name.c_str ());
            e->u.ncl.value = g_strdup (value.c_str ());
          }
        nw->outq.push_back (e);
        return true;
      }
  return false;
}

}

static void
lua_check (ncluaw_t *nw, const char *fn)
{
  for (ncluaw_t *p : sim::lua_states)
    if (p == nw)
      return;
  sim::out ("FAIL lua-dead-state %s\n", fn);
  sim::flush ();
  abort ();
}

extern "C" {

ncluaw_t *
ncluaw_open (const char *path, int width, int height, char **errmsg)
{
  if (sim::lua_fail_open || access (path, R_OK) != 0)
    {
      sim::out ("N openfail %s\n", sim::basename_of (path).c_str ());
      if (errmsg)
        *errmsg = g_strdup ("cannot open script");
      return nullptr;
    }
  ncluaw_t *nw = new _ncluaw_t;
  nw->serial = ++sim::lua_serial;
  nw->file = sim::basename_of (path);
  nw->sfc = cairo_image_surface_create (
      CAIRO_FORMAT_ARGB32, width > 0 ? width : 1, height > 0 ? height : 1);
  sim::lua_states.push_back (nw);
  sim::out ("N open %s %s\n", nw->file.c_str (),
            sim::basename_of (sim::cwd ()).c_str ());
  return nw;
}

void
ncluaw_close (ncluaw_t *nw)
{
  lua_check (nw, "close");
  sim::out ("N close %s\n", nw->file.c_str ());
  while (!nw->outq.empty ())
    {
      ncluaw_event_free (nw->outq.front ());
      nw->outq.pop_front ();
    }
  cairo_surface_destroy (nw->sfc);
  sim::lua_states.remove (nw);
  delete nw;
}

void
ncluaw_cycle (ncluaw_t *nw)
{
  lua_check (nw, "cycle");
  sim::out ("N cycle %s %s\n", nw->file.c_str (),
            sim::basename_of (sim::cwd ()).c_str ());
}

void
ncluaw_send_key_event (ncluaw_t *nw, const char *type, const char *key)
{
  lua_check (nw, "send_key");
  sim::out ("N key %s %s %s\n", nw->file.c_str (), type,
            sim::esc (key).c_str ());
}

void
ncluaw_send_ncl_event (ncluaw_t *nw, const char *type, const char *action,
                       const char *name, const char *value)
{
  lua_check (nw, "send_ncl");
  sim::out ("N evt %s %s %s %s %s\n", nw->file.c_str (), type, action,
            sim::esc (name ? name : "").c_str (),
            sim::esc (value ? value : "").c_str ());
}

ncluaw_event_t *
ncluaw_receive (ncluaw_t *nw)
{
  lua_check (nw, "receive");
  if (nw->outq.empty ())
    return nullptr;
  ncluaw_event_t *e = nw->outq.front ();
  nw->outq.pop_front ();
  return e;
}

void
ncluaw_event_free (ncluaw_event_t *e)
{
  if (e->cls == NCLUAW_EVENT_NCL)
    {
      g_free ((char *) e->u.ncl.type);
      g_free ((char *) e->u.ncl.action);
      g_free ((char *) e->u.ncl.name);
      g_free ((char *) e->u.ncl.value);
    }
  g_free (e);
}

void *
ncluaw_debug_get_surface (ncluaw_t *nw)
{
  lua_check (nw, "get_surface");
  return nw->sfc;
}

}

// ---------------------------------------------------------- plain GObjects

namespace {

int live_sessions, live_servers, live_ssdp;

typedef struct { GObject parent; int kind; gboolean flag; } SimObj;
typedef struct { GObjectClass parent; } SimObjClass;
GObjectClass *simobj_parent;

void
simobj_finalize (GObject *o)
{
  switch (((SimObj *) o)->kind)
    {
    case 1: live_sessions--; break;
    case 2: live_servers--; break;
    default: live_ssdp--; break;
    }
  simobj_parent->finalize (o);
}

void
simobj_class_init (gpointer k, gpointer)
{
  simobj_parent = (GObjectClass *) g_type_class_peek_parent (k);
  ((GObjectClass *) k)->finalize = simobj_finalize;
}

SimObj *
simobj_new (int kind)
{
  static GType t = 0;
  if (!t)
    t = g_type_register_static_simple (
        G_TYPE_OBJECT, "GingaSimObj", sizeof (SimObjClass),
        (GClassInitFunc) simobj_class_init, sizeof (SimObj), nullptr,
        (GTypeFlags) 0);
  SimObj *o = (SimObj *) g_object_new (t, nullptr);
  o->kind = kind;
  switch (kind)
    {
    case 1: live_sessions++; break;
    case 2: live_servers++; break;
    default: live_ssdp++; break;
    }
  return o;
}

struct Handler
{
  string path;
  bool is_default;
  SoupServerCallback cb;
  gpointer data;
};
struct Server
{
  bool connected;
  std::list<Handler> handlers;
};
std::map<void *, Server> servers;

struct Pending
{
  SimObj *session;
  SoupMessage *msg;
  SoupSessionCallback cb;
  gpointer data;
};
std::vector<Pending> pending;

}

namespace sim {

int net_listen_failures = 0;
bool net_ssdp_fail = false;

int
net_live_sessions ()
{
  return live_sessions;
}

int
net_live_servers ()
{
  return live_servers;
}

int
net_pending ()
{
  return (int) pending.size ();
}

bool
net_complete (size_t i, unsigned status)
{
  if (i >= pending.size ())
    return false;
  Pending p = pending[i];
  pending.erase (pending.begin () + (long) i);
  soup_message_set_status (p.msg, status);
  out ("W done %u\n", status);
  if (p.cb)
    p.cb ((SoupSession *) p.session, p.msg, p.data);
  g_object_unref (p.msg);
  g_object_unref (p.session);
  return true;
}

bool
net_request (const string &method, const string &path, const string &body,
             int *status)
{
  for (auto &it : servers)
    {
      Server &sv = it.second;
      if (!sv.connected)
        continue;
      Handler *best = nullptr;
      for (auto &h : sv.handlers)
        {
          bool ok = h.is_default;
          if (!ok && path.compare (0, h.path.size (), h.path) == 0)
            ok = path.size () == h.path.size () || h.path.back () == '/'
                 || path[h.path.size ()] == '/';
          if (ok && (!best || best->is_default
                     || (!h.is_default && h.path.size () > best->path.size ())))
            best = &h;
        }
      if (!best)
        continue;
      SoupMessage *msg = soup_message_new (
          method.c_str (), ("http://127.0.0.1:44642" + path).c_str ());
      if (!msg)
        return false;
      if (!body.empty ())
        soup_message_body_append (msg->request_body, SOUP_MEMORY_COPY,
                                  body.data (), body.size ());
      // As the real server does: flatten before calling the handler.
      soup_buffer_free (soup_message_body_flatten (msg->request_body));
      best->cb ((SoupServer *) it.first, msg, path.c_str (), nullptr,
                nullptr, best->data);
      *status = (int) msg->status_code;
      SoupMessageHeadersIter hi;
      const char *hn, *hv;
      soup_message_headers_iter_init (&hi, msg->response_headers);
      while (soup_message_headers_iter_next (&hi, &hn, &hv))
        out ("W hdr %s %s\n", sim::esc (hn).c_str (), sim::esc (hv).c_str ());
      g_object_unref (msg);
      return true;
    }
  return false;
}

}

extern "C" {

SoupServer *
soup_server_new (const char *, ...)
{
  SimObj *o = simobj_new (2);
  servers[o] = Server ();
  servers[o].connected = false;
  return (SoupServer *) o;
}

gboolean
soup_server_listen_all (SoupServer *s, guint port, SoupServerListenOptions,
                        GError **err)
{
  if (sim::net_listen_failures > 0)
    {
      sim::net_listen_failures--;
      sim::out ("W listenfail %u\n", port);
      g_set_error (err, G_IO_ERROR, G_IO_ERROR_ADDRESS_IN_USE,
                   "address in use");
      return FALSE;
    }
  sim::out ("W listen %u\n", port);
  servers[s].connected = true;
  return TRUE;
}

void
soup_server_add_handler (SoupServer *s, const char *path,
                         SoupServerCallback cb, gpointer data,
                         GDestroyNotify)
{
  Handler h;
  h.is_default = path == nullptr;
  h.path = path ? path : "";
  h.cb = cb;
  h.data = data;
  servers[s].handlers.push_back (h);
}

void
soup_server_disconnect (SoupServer *s)
{
  if (!s)
    {
      g_return_if_fail_warning ("simsoup", "soup_server_disconnect", "s");
      return;
    }
  sim::out ("W disconnect\n");
  servers[s].connected = false;
}

SoupSession *
soup_session_new (void)
{
  return (SoupSession *) simobj_new (1);
}

void
soup_session_queue_message (SoupSession *s, SoupMessage *msg,
                            SoupSessionCallback cb, gpointer data)
{
  if (!s || !msg)
    {
      g_return_if_fail_warning ("simsoup", "soup_session_queue_message",
                                "msg");
      return;
    }
  Pending p;
  p.session = (SimObj *) g_object_ref (s);
  p.msg = msg;
  p.cb = cb;
  p.data = data;
  pending.push_back (p);
  SoupBuffer *b = soup_message_body_flatten (msg->request_body);
  char *uri = soup_uri_to_string (soup_message_get_uri (msg), FALSE);
  sim::out ("W send %s %s\n", sim::esc (uri).c_str (),
            sim::esc (string (b->data, b->length)).c_str ());
  g_free (uri);
  soup_buffer_free (b);
}

GSSDPClient *
gssdp_client_new (const char *, GError **err)
{
  if (sim::net_ssdp_fail)
    {
      sim::out ("W ssdpfail\n");
      g_set_error (err, G_IO_ERROR, G_IO_ERROR_FAILED, "no interface");
      return nullptr;
    }
  return (GSSDPClient *) simobj_new (3);
}

void
gssdp_client_set_server_id (GSSDPClient *, const char *)
{
}

const char *
gssdp_client_get_host_ip (GSSDPClient *)
{
  return "127.0.0.1";
}

gboolean
gssdp_client_get_active (GSSDPClient *)
{
  return TRUE;
}

GSSDPResourceGroup *
gssdp_resource_group_new (GSSDPClient *)
{
  return (GSSDPResourceGroup *) simobj_new (4);
}

guint
gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *,
                                          const char *, const char *,
                                          const char *location)
{
  sim::out ("W announce %s\n", location);
  return 1;
}

void
gssdp_resource_group_set_available (GSSDPResourceGroup *g, gboolean a)
{
  if (!g)
    {
      g_return_if_fail_warning ("simgssdp", "set_available", "g");
      return;
    }
  ((SimObj *) g)->flag = a;
  sim::out ("W available %d\n", a);
}

gboolean
gssdp_resource_group_get_available (GSSDPResourceGroup *g)
{
  return ((SimObj *) g)->flag;
}

}
