/* Simulated GSSDP interface (gssdp-1.2 is not installed in this sandbox).
   Only what lib/WebServices.cpp uses.  */
#ifndef SIM_GSSDP_H
#define SIM_GSSDP_H
#include <glib-object.h>
G_BEGIN_DECLS
typedef struct _GSSDPClient GSSDPClient;
typedef struct _GSSDPResourceGroup GSSDPResourceGroup;
GSSDPClient *gssdp_client_new (const char *iface, GError **error);
void gssdp_client_set_server_id (GSSDPClient *c, const char *id);
const char *gssdp_client_get_host_ip (GSSDPClient *c);
gboolean gssdp_client_get_active (GSSDPClient *c);
GSSDPResourceGroup *gssdp_resource_group_new (GSSDPClient *c);
guint gssdp_resource_group_add_resource_simple (GSSDPResourceGroup *g,
                                                const char *target,
                                                const char *usn,
                                                const char *location);
void gssdp_resource_group_set_available (GSSDPResourceGroup *g,
                                         gboolean available);
gboolean gssdp_resource_group_get_available (GSSDPResourceGroup *g);
G_END_DECLS
#endif
