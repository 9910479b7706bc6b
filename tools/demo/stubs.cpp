// Stand-ins for the two packages that are not installed here.
#include <ncluaw.h>
#include <libgssdp/gssdp.h>
#include <string.h>
#include <glib.h>
extern "C" {
__attribute__((weak)) ncluaw_t *ncluaw_open (const char *, int, int, char **e)
{ if (e) *e = g_strdup ("no NCLua"); return nullptr; }
__attribute__((weak)) void ncluaw_close (ncluaw_t *) {}
__attribute__((weak)) void ncluaw_cycle (ncluaw_t *) {}
__attribute__((weak)) void ncluaw_send_key_event (ncluaw_t *, const char *, const char *) {}
__attribute__((weak)) void ncluaw_send_ncl_event (ncluaw_t *, const char *, const char *,
                            const char *, const char *) {}
__attribute__((weak)) ncluaw_event_t *ncluaw_receive (ncluaw_t *) { return nullptr; }
__attribute__((weak)) void ncluaw_event_free (ncluaw_event_t *) {}
__attribute__((weak)) void *ncluaw_debug_get_surface (ncluaw_t *) { return nullptr; }
GSSDPClient *gssdp_client_new (const char *, GError **) { return nullptr; }
void gssdp_client_set_server_id (GSSDPClient *, const char *) {}
const char *gssdp_client_get_host_ip (GSSDPClient *) { return "127.0.0.1"; }
gboolean gssdp_client_get_active (GSSDPClient *) { return FALSE; }
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *) { return nullptr; }
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *,
  const char *, const char *, const char *) { return 0; }
void gssdp_resource_group_set_available (GSSDPResourceGroup *, gboolean) {}
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *) { return FALSE; }
}
