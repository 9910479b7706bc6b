// Shared declarations of the simulator.
#ifndef SIM_H
#define SIM_H

#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>

namespace sim {

// Protocol output (buffered; flushed at the end of every op and on exit).
void out (const char *fmt, ...) __attribute__ ((format (printf, 1, 2)));
void flush ();
std::string esc (const std::string &s); // one-token escaping
std::string unesc (const std::string &s);

// Arena allocator (seeded memory layout).
void arena_begin (uint64_t seed);
void arena_leaks ();
uint64_t arena_live_bytes ();
uint64_t arena_live_blocks ();
void arena_tag (int tag);
void arena_report (int tag);

// NCLua seam.
bool lua_post (const std::string &file, const std::string &type,
               const std::string &action, const std::string &name,
               const std::string &value);
int lua_live ();
extern bool lua_fail_open;

// Network seam.
bool net_request (const std::string &method, const std::string &path,
                  const std::string &body, int *status);
int net_pending ();
bool net_complete (size_t index, unsigned status);
int net_live_sessions ();
int net_live_servers ();
extern int net_listen_failures; // number of listen calls still to fail
extern bool net_ssdp_fail;

// File seam.
struct IoFault
{
  int kind;        // 0 none, 1 open error, 2 read error, 3 short reads
  int at;          // bytes before a read error
  int err;         // errno
  std::string sub; // path substring
};
void io_set_root (const std::string &root);
void io_clear ();
void io_add (const IoFault &f);
long io_fired (int kind);
void disk_config (long at, int kind, int arg);
[[noreturn]] void disk_lose_power ();
long disk_ops ();
const char *io_root ();

// The settings of the graphical program.
void settings_set (const std::string &field, const std::string &value);
void settings_history (const std::vector<std::string> &names);
void settings_save ();
void settings_load ();
void settings_show ();

// GStreamer seam.
void gst_seam_init ();
void threads_settle ();
bool gst_post (const std::string &uri, const std::string &what);
void gst_pump ();
int gst_live ();
void gst_config (const std::string &uri, long long dur, int flags);
void gst_advance (uint64_t diff);
std::string gst_list ();

// The programs: the player and the graphical one.
int app_main (int argc, char **argv);
int gui_main (int argc, char **argv);
void gui_log (const char *domain, int level, const char *msg);
void app_config (long long time, long long gap, long long counter, int);
bool plan_peek (std::vector<std::string> *a);
bool plan_next (std::vector<std::string> *a);
void plan_mark (const char *name);
void plan_enter (void *ginga);
void plan_done ();
void image (void *surface, int w, int h);
extern void (*pending_handler) (int); // a signal that is about to arrive
extern int pending_signal;
extern int pending_after; // transitions until then, -1 for none

// Allocation-size independent PRNG.
struct Rng
{
  uint64_t s;
  explicit Rng (uint64_t seed) : s (seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next ()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

}
#endif
