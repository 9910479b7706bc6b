// Thread seam: background threads of libraries run inside the simulated
// process's only thread, when somebody waits for them.
//
// Pango hands fontconfig work to a thread of its own that serves a queue.  A
// real thread would race with fork() in the zygote (and would be missing in
// the children); here its function is resumed, synchronously, whenever the
// main thread is about to wait on a condition.

#include "sim.h"
#include <dlfcn.h>
#include <glib.h>
#include <setjmp.h>
#include <string.h>
#include <vector>

namespace {

struct Task
{
  GThreadFunc func;
  gpointer data; // the queue it serves
};
Task *tasks;
int ntasks, ctasks;
bool draining;
GAsyncQueue *current;
jmp_buf out_of_work;

template <typename F> F
next (const char *name)
{
  return (F) dlsym (RTLD_NEXT, name);
}

bool
drain ()
{
  bool any = false;
  if (draining)
    return false;
  draining = true;
  for (volatile int i = 0; i < ntasks; i++)
    {
      GAsyncQueue *q = (GAsyncQueue *) tasks[i].data;
      if (g_async_queue_length (q) <= 0)
        continue;
      any = true;
      current = q;
      if (setjmp (out_of_work) == 0)
        {
          tasks[i].func (tasks[i].data);
          // The function ended for good.
          tasks[i] = tasks[ntasks - 1];
          ntasks = ntasks - 1;
          i = i - 1;
        }
      current = nullptr;
    }
  draining = false;
  return any;
}

}

extern "C" {

GThread *
g_thread_new (const gchar *name, GThreadFunc func, gpointer data)
{
  static auto real
      = next<GThread *(*) (const gchar *, GThreadFunc, gpointer)> (
          "g_thread_new");
  if (name != nullptr && strcmp (name, "[pango] fontconfig") == 0)
    {
      if (ntasks == ctasks)
        {
          ctasks += 8;
          tasks = (Task *) g_realloc (tasks, sizeof (Task) * (gsize) ctasks);
        }
      tasks[ntasks].func = func;
      tasks[ntasks].data = data;
      ntasks++;
      return g_thread_ref (g_thread_self ());
    }
  return real (name, func, data);
}

gpointer
g_async_queue_pop (GAsyncQueue *q)
{
  static auto real = next<gpointer (*) (GAsyncQueue *)> ("g_async_queue_pop");
  if (q == current && g_async_queue_length (q) <= 0)
    longjmp (out_of_work, 1);
  return real (q);
}

void
g_cond_wait (GCond *c, GMutex *m)
{
  static auto real = next<void (*) (GCond *, GMutex *)> ("g_cond_wait");
  if (ntasks > 0 && !draining)
    {
      g_mutex_unlock (m);
      bool any = drain ();
      g_mutex_lock (m);
      if (any)
        return; // as a spurious wake-up
    }
  real (c, m);
}

}

namespace sim {

void
threads_settle ()
{
  drain ();
}

}
