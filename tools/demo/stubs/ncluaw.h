/* Simulated NCLua engine interface (stands in for the nclua package, which
   is not installed in this sandbox).  Only what lib/PlayerLua.* uses.  */
#ifndef SIM_NCLUAW_H
#define SIM_NCLUAW_H
#ifdef __cplusplus
extern "C" {
#endif

typedef struct _ncluaw_t ncluaw_t;

typedef enum
{
  NCLUAW_EVENT_KEY = 0,
  NCLUAW_EVENT_NCL,
  NCLUAW_EVENT_POINTER,
  NCLUAW_EVENT_USER,
  NCLUAW_EVENT_UNKNOWN,
} ncluaw_event_class_t;

typedef struct _ncluaw_event_t
{
  ncluaw_event_class_t cls;
  union
  {
    struct { const char *type; const char *key; } key;
    struct
    {
      const char *type;
      const char *action;
      const char *name;
      const char *value;
    } ncl;
  } u;
} ncluaw_event_t;

ncluaw_t *ncluaw_open (const char *path, int width, int height,
                       char **errmsg);
void ncluaw_close (ncluaw_t *nw);
void ncluaw_cycle (ncluaw_t *nw);
void ncluaw_send_key_event (ncluaw_t *nw, const char *type,
                            const char *key);
void ncluaw_send_ncl_event (ncluaw_t *nw, const char *type,
                            const char *action, const char *name,
                            const char *value);
ncluaw_event_t *ncluaw_receive (ncluaw_t *nw);
void ncluaw_event_free (ncluaw_event_t *evt);
void *ncluaw_debug_get_surface (ncluaw_t *nw);

#ifdef __cplusplus
}
#endif
#endif
