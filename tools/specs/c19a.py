ID = 'c19-first-match-only'
PROP = 'C19'
NEEDS = 'a device that matches more than one media'
BREAKS = 'the device is given only the first of the media that match it'
EDITS = [
    ('lib/WebServices.cpp', r"""          g_free (body);
          g_object_unref (session);
        }
""",
     r"""          g_free (body);
          g_object_unref (session);
          break;
        }
"""),
]
DEMO = r'''
#include <libsoup/soup.h>
#include "WebServices.h"
static int sent;
extern "C" void
soup_session_queue_message (SoupSession *, SoupMessage *msg,
                            SoupSessionCallback, gpointer)
{
  sent++;
  g_object_unref (msg);
}
void
run ()
{
  Demo d;
  CHECK (d.start ("<ncl><body><port id='p' component='t'/><media id='t'/>"
                  "<media id='m'><property name='device' value='tv'/></media>"
                  "<media id='n'><property name='device' value='tv'/></media>"
                  "</body></ncl>"));
  d.tick (0);
  WebServices ws (d.f);
  PlayerRemoteData data;
  data.location = "http://127.0.0.1:9/x/";
  data.deviceType = "tv";
  CHECK (ws.machMediaThenSetPlayerRemote (data));
  CHECK (d.prop ("m", "remotePlayerBaseURL") == data.location);
  CHECK (d.prop ("n", "remotePlayerBaseURL") == data.location);
  CHECK (sent == 2);
}
'''
