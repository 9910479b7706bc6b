From d6a104e5826284a166017b1bfddcfcc0b5afad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 01/93] fix: evaluate negated predicates instead of aborting

---
 lib/Document.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index e366275..eed5803 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -501,7 +501,11 @@ Document::evalPredicate (Predicate *pred)
         return result;
       }
     case Predicate::NEGATION:
-      g_assert_not_reached ();
+      {
+        bool result = !this->evalPredicate (pred->getChildren ()->front ());
+        TRACE ("not -> %s", strbool (result));
+        return result;
+      }
       break;
     case Predicate::CONJUNCTION:
       {
-- 
2.43.0


From 12760c427ac34c6a9fa4b5321aa64bfde4767ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 02/93] fix: keep switches consistent with their selected
 component

A switch aborted on restart and on selection or attribution events, lost its
selection when paused, was never stopped by its parent when started through a
switchPort, did not end when its selected component ended, and ended when
any anchor or attribution of its selected component ended.
---
 lib/Document.cpp | 14 +++++++++++---
 lib/Switch.cpp   | 46 ++++++++++++++++++++++++++++++++++++++++++++--
 lib/Switch.h     |  3 +++
 3 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index eed5803..647dac2 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -376,14 +376,17 @@ Document::evalAction (Action init)
       else if (comp != nullptr && instanceof (Switch *, comp))
         {
           // Trigger the switchPort labelled action mapped to the switch's
-          // media object.
+          // selected object.
           Switch *swtch = cast (Switch *, comp);
+          bool selected = swtch->getSelected () == obj
+                          && evt->getType () == Event::PRESENTATION;
           for (const auto &swtchPort : *swtch->getSwitchPorts ())
             {
               for (const auto &mapped_evt : swtchPort.second)
                 {
-                  if (mapped_evt->getObject () == evt->getObject ()
-                      && swtch->getParent () != nullptr)
+                  if (selected && swtch->getParent () != nullptr
+                      && mapped_evt->getObject () == obj
+                      && (mapped_evt == evt || evt->isLambda ()))
                     {
                       Event *label_evt = swtch->getEvent (
                           Event::PRESENTATION, swtchPort.first);
@@ -396,6 +399,11 @@ Document::evalAction (Action init)
                     }
                 }
             }
+
+          // The switch ends with its selected object.
+          if (selected && evt->isLambda () && obj->isSleeping ()
+              && swtch->getSelected () == obj)
+            evalAction (swtch->getLambda (), act.transition);
         }
 
       // If event object is a context, trigger the context itself
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 1533299..d303f95 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -18,6 +18,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include "aux-ginga.h"
 #include "Switch.h"
 
+#include "Context.h"
 #include "Document.h"
 
 namespace ginga {
@@ -68,6 +69,10 @@ bool
 Switch::beforeTransition (Event *evt, Event::Transition transition)
 {
   set<Event *> switchPort_evts; // The possible selected events.
+
+  if (evt->getType () != Event::PRESENTATION)
+    return false; // fail
+
   if (evt->isLambda ())
     {
       // If we are acting on the switch's @lambda all the @lambda children
@@ -94,7 +99,17 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          g_assert_null (_selected);
+          // Already started.  The only thing left to do is to start @lambda
+          // on behalf of the switchPort that made the selection.
+          if (_selected != nullptr)
+            return evt->isLambda ();
+
+          // Start parent context, if it is not started yet.
+          if (instanceof (Context *, _parent) && _parent->isSleeping ())
+            {
+              _parent->getLambda ()->setParameter ("fromport", "true");
+              _parent->getLambda ()->transition (Event::START);
+            }
           for (auto item : _rules)
             {
               Object *obj;
@@ -145,7 +160,8 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
               Event *lambda = _selected->getLambda ();
               g_assert_nonnull (lambda);
               lambda->transition (transition);
-              _selected = nullptr;
+              if (transition == Event::STOP || transition == Event::ABORT)
+                _selected = nullptr;
             }
           break;
 
@@ -173,6 +189,12 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
+          if (!evt->isLambda ())
+            {
+              // Started through a switchPort: the switch itself starts too.
+              _lambda->transition (Event::START);
+              break;
+            }
           Object::doStart ();
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
@@ -180,10 +202,12 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
             _doc->evalAction (evt, Event::STOP);
           break;
         case Event::PAUSE:
+          this->syncEvents (evt, transition);
           TRACE ("pause %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
         case Event::RESUME:
+          this->syncEvents (evt, transition);
           TRACE ("resume %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
@@ -244,4 +268,22 @@ Switch::addSwitchPort (const string &id, const list<Event *> &evts)
   _switchPorts[id] = evts;
 }
 
+Object *
+Switch::getSelected ()
+{
+  return _selected;
+}
+
+// Private.
+
+void
+Switch::syncEvents (Event *evt, Event::Transition transition)
+{
+  for (auto e : _events)
+    {
+      if (e != evt && e->getType () == Event::PRESENTATION)
+        e->transition (transition);
+    }
+}
+
 }
diff --git a/lib/Switch.h b/lib/Switch.h
index 8d2574a..fe0d3a4 100644
--- a/lib/Switch.h
+++ b/lib/Switch.h
@@ -40,8 +40,11 @@ public:
   void addRule (Object *, Predicate *);
   const map<string, list<Event *> > *getSwitchPorts ();
   void addSwitchPort (const string &, const list<Event *> &);
+  Object *getSelected ();
 
 private:
+  void syncEvents (Event *, Event::Transition);
+
   map<string, list<Event *> > _switchPorts; ///< List of switchPorts.
   list<pair<Object *, Predicate *> > _rules;
   Object *_selected;
-- 
2.43.0


From ee2a400381b005167d5048289d8049ef34d2d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 03/93] fix: start the ports of contexts that were once started
 by a child

---
 lib/Context.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index c79e503..451b4e4 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -255,13 +255,15 @@ Context::afterTransition (Event *evt, Event::Transition transition)
           // Start all ports in the next tick if not started from port
           evt->getParameter ("fromport", &param_test);
           if (param_test != "")
-            break;
+            {
+              evt->setParameter ("fromport", "");
+              break;
+            }
           for (auto port : _ports)
             {
               if (port->getType () == Event::PRESENTATION)
                 this->addDelayedAction (port, Event::START, "", 0);
             }
-          evt->setParameter ("fromport", "");
           TRACE ("start %s at %" GINGA_TIME_FORMAT,
                  evt->getFullId ().c_str (), GINGA_TIME_ARGS (_time));
           break;
-- 
2.43.0


From 449d51ad0248c6f4cdb7dfd8375e857750f746fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 04/93] fix: end attributions made to objects that are not
 being presented

Their end was scheduled at an invalid time, so the attribution never ended
and every later attribution to the same property was refused.
---
 lib/Context.cpp |  2 +-
 lib/Media.cpp   |  2 +-
 lib/Object.cpp  | 15 +++++++++++++++
 lib/Object.h    |  1 +
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 451b4e4..0517680 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -311,7 +311,7 @@ Context::afterTransition (Event *evt, Event::Transition transition)
                 dur = ginga::parse_time (s);
               }
             this->setProperty (name, value, dur);
-            this->addDelayedAction (evt, Event::STOP, value, dur);
+            this->scheduleAttributionStop (evt, value, dur);
             TRACE ("start %s:='%s' (dur=%s)", evt->getFullId ().c_str (),
                    value.c_str (), (s != "") ? s.c_str () : "0s");
             break;
diff --git a/lib/Media.cpp b/lib/Media.cpp
index fd444c2..2ca1cca 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -425,7 +425,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
                   dur = ginga::parse_time (s);
                 }
               this->setProperty (name, value, dur);
-              this->addDelayedAction (evt, Event::STOP, value, dur);
+              this->scheduleAttributionStop (evt, value, dur);
               TRACE ("start %s:='%s' (dur=%s) at %" GINGA_TIME_FORMAT,
                      evt->getFullId ().c_str (), value.c_str (),
                      (s != "") ? s.c_str () : "0s",
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 85d36e6..ffc4588 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -409,6 +409,21 @@ Object::getTime ()
 
 // Private.
 
+/**
+ * @brief Schedules the end of an attribution to this object.
+ *
+ * The time of an object that is not being presented does not advance, so the
+ * end of attributions to such object is scheduled in the body.
+ */
+void
+Object::scheduleAttributionStop (Event *evt, const string &value, Time dur)
+{
+  Object *owner = this;
+  if (!GINGA_TIME_IS_VALID (_time))
+    owner = _doc->getRoot ();
+  owner->addDelayedAction (evt, Event::STOP, value, dur);
+}
+
 void
 Object::doStart ()
 {
diff --git a/lib/Object.h b/lib/Object.h
index fba94f9..028ee32 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -120,6 +120,7 @@ protected:
 
   virtual void doStart ();
   virtual void doStop ();
+  void scheduleAttributionStop (Event *, const string &, Time);
 };
 
 }
-- 
2.43.0


From eb1186bcc6a819c67bff7b64e5373fb9590fc4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 05/93] fix: do not abort when the settings object is stopped
 by a link

---
 lib/Context.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index 0517680..d84d505 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -149,22 +149,15 @@ Context::sendTick (Time total, Time diff, Time frame)
   // Update object time.
   Object::sendTick (total, diff, frame);
 
-  // Check for EOS.
-  if (_parent == nullptr && _awakeChildren == 1)
-    {
-      if (_doc->getSettings ()->isOccurring ())
-        {
-          _doc->evalAction (_lambda, Event::STOP);
-        }
-      else
-        {
-          g_assert_not_reached ();
-        }
-    }
-  else if (_awakeChildren == 0)
-    {
-      _doc->evalAction (_lambda, Event::STOP);
-    }
+  if (!this->isOccurring ())
+    return; // nothing to do
+
+  // Check for EOS.  The settings object does not keep the body awake.
+  int self = 0;
+  if (_parent == nullptr && !_doc->getSettings ()->isSleeping ())
+    self = 1;
+  if (_awakeChildren == self)
+    _doc->evalAction (_lambda, Event::STOP);
 }
 
 bool
-- 
2.43.0


From b98dc49f6ea3702f7467420274a1122963449175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 06/93] fix: do not lose or leak the delayed actions that are
 due

If one of the actions due in a tick paused the object the remaining ones were
lost, and if it restarted the object they were run in its next occurrence.
---
 lib/Object.cpp | 34 ++++++++++++++++++----------------
 lib/Object.h   |  1 +
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index ffc4588..9312202 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -375,29 +375,30 @@ Object::sendTick (unused (Time total), Time diff, unused (Time frame))
   g_assert (GINGA_TIME_IS_VALID (_time));
   _time += diff;
 
-  list<Action> trigger;
-  for (auto &it : _delayed)
+  for (auto it = _delayed.begin (); it != _delayed.end ();)
     {
-      if (_time >= it.second)
+      if (it->second == GINGA_TIME_NONE)
+        {
+          it = _delayed.erase (it);
+        }
+      else if (_time >= it->second)
+        {
+          _due.push_back (it->first);
+          it = _delayed.erase (it);
+        }
+      else
         {
-          it.second = GINGA_TIME_NONE;
-          trigger.push_back (it.first);
+          ++it;
         }
     }
 
-  for (auto action : trigger)
+  // If some action pauses the object, the remaining ones stay due.  If some
+  // action stops the object, the remaining ones are discarded.
+  while (!_due.empty () && this->isOccurring ())
     {
+      Action action = _due.front ();
+      _due.pop_front ();
       _doc->evalAction (action);
-      if (!this->isOccurring ())
-        return;
-    }
-
-  for (auto it = _delayed.begin (); it != _delayed.end ();)
-    {
-      if (it->second == GINGA_TIME_NONE)
-        it = _delayed.erase (it);
-      else
-        ++it;
     }
 }
 
@@ -443,6 +444,7 @@ Object::doStop ()
   for (auto evt : _events)
     evt->reset ();
   _delayed.clear ();
+  _due.clear ();
   if (_parent != nullptr && instanceof (Context *, _parent))
     cast (Context *, _parent)->decAwakeChildren ();
 }
diff --git a/lib/Object.h b/lib/Object.h
index 028ee32..84588de 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -117,6 +117,7 @@ protected:
   Event *_lambda;                              // lambda event
   set<Event *> _events;                        // all events
   list<pair<Action, Time> > _delayed;          // delayed actions
+  list<Action> _due;                           // delayed actions now due
 
   virtual void doStart ();
   virtual void doStop ();
-- 
2.43.0


From 8c7e559c3a61aaeb3c179556c964539ca6c3912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 07/93] fix: delayed link actions keep their duration and end
 with the context

The duration of a delayed attribution was dropped, and an action delayed by a
link that the end of its own context triggered was run when the context was
started again.
---
 lib/Document.cpp | 3 ++-
 lib/Object.cpp   | 7 ++++++-
 lib/Object.h     | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 647dac2..aac0788 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -293,7 +293,8 @@ Document::evalActionInContext (Action act, Context *ctx)
                   g_assert_nonnull (next_obj);
 
                   ctx->addDelayedAction (next_evt, next_act.transition,
-                                         next_act.value, delay);
+                                         next_act.value, delay,
+                                         next_act.duration);
                 }
             }
         }
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 9312202..990d888 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -351,13 +351,18 @@ Object::getDelayedActions ()
 
 void
 Object::addDelayedAction (Event *event, Event::Transition transition,
-                          const string &value, Time delay)
+                          const string &value, Time delay,
+                          const string &duration)
 {
   Action act;
 
+  if (!GINGA_TIME_IS_VALID (_time))
+    return; // the object is not being presented: it has no pending actions
+
   act.event = event;
   act.transition = transition;
   act.value = value;
+  act.duration = duration;
   _delayed.push_back (std::make_pair (act, _time + delay));
 }
 
diff --git a/lib/Object.h b/lib/Object.h
index 84588de..95404a7 100644
--- a/lib/Object.h
+++ b/lib/Object.h
@@ -70,7 +70,8 @@ public:
 
   const list<pair<Action, Time> > *getDelayedActions ();
   void addDelayedAction (Event *, Event::Transition,
-                         const string &value = "", Time delay = 0);
+                         const string &value = "", Time delay = 0,
+                         const string &duration = "");
 
   virtual void sendKey (const string &, bool);
   virtual void sendTick (Time, Time, Time);
-- 
2.43.0


From 075373974f008e1156973fe4b45be2bbf8753435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 08/93] fix: trigger each link at most once per event
 transition

The links of a context were triggered twice if two ports or two refer
elements (or a refer element and its target) were in the way, and links of
contexts that were not being presented were triggered through refer elements.
---
 lib/Document.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index aac0788..471176e 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -321,6 +321,7 @@ Document::evalAction (Action init)
       Object *obj;
       Composition *comp;
       Context *ctx_parent, *ctx_grandparent;
+      list<Context *> ctxs;
 
       act = stack.back ();
       stack.pop_back ();
@@ -352,8 +353,7 @@ Document::evalAction (Action init)
           g_assert_nonnull (ctx_parent);
 
           // Trigger links in the parent context
-          list<Action> ret = evalActionInContext (act, ctx_parent);
-          stack.insert (stack.end (), ret.begin (), ret.end ());
+          tryinsert (ctx_parent, ctxs, push_back);
 
           // If the event object is pointed by a port in the parent context,
           // trigger links in the its grantparent context ( and ancestors)
@@ -365,11 +365,7 @@ Document::evalAction (Action init)
               for (auto port : *ctx_parent->getPorts ())
                 {
                   if (port->getObject () == evt->getObject ())
-                    {
-                      list<Action> ret
-                          = evalActionInContext (act, ctx_grandparent);
-                      stack.insert (stack.end (), ret.begin (), ret.end ());
-                    }
+                    tryinsert (ctx_grandparent, ctxs, push_back);
                 }
             }
         }
@@ -412,8 +408,7 @@ Document::evalAction (Action init)
         {
           ctx_parent = cast (Context *, obj);
           g_assert_nonnull (ctx_parent);
-          list<Action> ret = evalActionInContext (act, ctx_parent);
-          stack.insert (stack.end (), ret.begin (), ret.end ());
+          tryinsert (ctx_parent, ctxs, push_back);
         }
       // If have refer elements, trigger in the contexts
       else if (obj->getAliases ()->size ())
@@ -421,13 +416,17 @@ Document::evalAction (Action init)
           for (const auto &alias : *obj->getAliases ())
             {
               ctx_parent = cast (Context *, alias.second);
-              if (ctx_parent)
-                {
-                  list<Action> ret = evalActionInContext (act, ctx_parent);
-                  stack.insert (stack.end (), ret.begin (), ret.end ());
-                }
+              if (ctx_parent && ctx_parent->isOccurring ())
+                tryinsert (ctx_parent, ctxs, push_back);
             }
         }
+
+      // Trigger the links of each of these contexts once.
+      for (auto ctx : ctxs)
+        {
+          list<Action> ret = evalActionInContext (act, ctx);
+          stack.insert (stack.end (), ret.begin (), ret.end ());
+        }
     }
   return n;
 }
-- 
2.43.0


From 4d777192f245ff167b9e1f11076f2d081d771306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 09/93] fix: do not abort on unusual transitions of
 attributions and selections

Link roles such as pauseAttribution are accepted by the parser, so they must
not bring the formatter down.
---
 lib/Context.cpp | 10 +++++++---
 lib/Media.cpp   | 21 +++++++++++----------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/Context.cpp b/lib/Context.cpp
index d84d505..04842fc 100644
--- a/lib/Context.cpp
+++ b/lib/Context.cpp
@@ -214,9 +214,12 @@ Context::beforeTransition (Event *evt, Event::Transition transition)
       break;
 
     case Event::ATTRIBUTION:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;          // nothing to do
 
-    case Event::SELECTION:
+    case Event::SELECTION: // fall through
+    case Event::LOOKAT:
       return false; // fail
 
     default:
@@ -309,7 +312,8 @@ Context::afterTransition (Event *evt, Event::Transition transition)
                    value.c_str (), (s != "") ? s.c_str () : "0s");
             break;
           }
-        case Event::STOP:
+        case Event::STOP: // fall through
+        case Event::ABORT:
           {
             TRACE ("stop %s:=...", evt->getFullId ().c_str ());
             break;
diff --git a/lib/Media.cpp b/lib/Media.cpp
index 2ca1cca..0f1e3a8 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -300,14 +300,12 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
         }
       break;
 
-    case Event::ATTRIBUTION:
-      break; // nothing to do
-
-    case Event::SELECTION:
-      break; // nothing to do
-
+    case Event::ATTRIBUTION: // fall through
+    case Event::SELECTION:   // fall through
     case Event::LOOKAT:
-      break; // nothing to do
+      if (transition == Event::PAUSE || transition == Event::RESUME)
+        return false; // fail
+      break;          // nothing to do
 
     default:
       g_assert_not_reached ();
@@ -433,7 +431,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
               break;
             }
 
-          case Event::STOP:
+          case Event::STOP: // fall through
+          case Event::ABORT:
             TRACE ("stop %s:='%s'", evt->getFullId ().c_str (),
                    value.c_str ());
             break;
@@ -452,7 +451,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           case Event::START:
             TRACE ("start %s", evt->getFullId ().c_str ());
             break;
-          case Event::STOP:
+          case Event::STOP: // fall through
+          case Event::ABORT:
             TRACE ("stop %s", evt->getFullId ().c_str ());
             break;
           default:
@@ -466,7 +466,8 @@ Media::afterTransition (Event *evt, Event::Transition transition)
         case Event::START:
           TRACE ("start %s", evt->getFullId ().c_str ());
           break;
-        case Event::STOP:
+        case Event::STOP: // fall through
+        case Event::ABORT:
           TRACE ("stop %s", evt->getFullId ().c_str ());
           break;
         default:
-- 
2.43.0


From 1df28122bc819d6a7dc76ec0e0f6ac937dd19c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 10/93] fix: do not abort when printing objects with lookAt
 events

---
 lib/Object.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Object.cpp b/lib/Object.cpp
index 990d888..63e5c82 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -117,6 +117,7 @@ Object::toString ()
   list<string> pres;
   list<string> attr;
   list<string> sel;
+  list<string> look;
   list<string> prep;
   for (auto evt : _events)
     switch (evt->getType ())
@@ -136,6 +137,11 @@ Object::toString ()
                        + Event::getEventStateAsString (evt->getState ())
                        + ')');
         break;
+      case Event::LOOKAT:
+        look.push_back (evt->getId () + " ("
+                        + Event::getEventStateAsString (evt->getState ())
+                        + ')');
+        break;
       default:
         g_assert_not_reached ();
       }
@@ -144,6 +150,7 @@ Object::toString ()
     { "evts pres.", &pres },
     { "evts attr.", &attr },
     { "evts sel.", &sel },
+    { "evts look.", &look },
     { "evts prep.", &prep },
   };
 
-- 
2.43.0


From 49ca856b938f517090acf2619b1a4aff9659e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 11/93] fix: honor the interval of anchors started on sleeping
 media

The duration of the anchor was truncated to whole seconds, and anchors that
end before the started one begins were started and never stopped.
---
 lib/Media.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 0f1e3a8..6b2627d 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -208,7 +208,8 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (lambda->getState () != Event::SLEEPING)
                       break;
 
-                    lambda->transition (Event::START);
+                    if (!lambda->transition (Event::START))
+                      return false; // fail
 
                     Time begin, end, dur;
                     evt->getInterval (&begin, &end);
@@ -226,8 +227,11 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (end != GINGA_TIME_NONE)
                       {
                         dur = end - begin;
-                        string time_end = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                     dur / GINGA_SECOND);
+                        string time_end
+                            = xstrbuild ("%" G_GUINT64_FORMAT
+                                         ".%09" G_GUINT64_FORMAT,
+                                         dur / GINGA_SECOND,
+                                         dur % GINGA_SECOND);
                         TRACE ("time_end in %ss", time_end.c_str ());
                         _player->setProperty ("duration", time_end);
                         this->addDelayedAction (evt, Event::STOP, "", end);
@@ -251,8 +255,10 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                           {
                             Action act = it->first;
                             Event *evt = act.event;
+                            Time evt_end;
+                            evt->getInterval (nullptr, &evt_end);
                             if (act.transition == Event::START
-                                && it->second < begin)
+                                && it->second < begin && evt_end > begin)
                               evt->transition (act.transition);
                             it = _delayed.erase (it);
                           }
-- 
2.43.0


From 7304096eff4f955d1250934bcbe8e905378b5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 12/93] fix: do not abort when an anchor is stopped while its
 media is paused

Also handle links that stop or resume the media when its anchors are paused.
---
 lib/Media.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 6b2627d..d4c4948 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -286,6 +286,13 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
               if (!e->isLambda () && e->getType () == Event::PRESENTATION)
                 _doc->evalAction (e, transition);
 
+            // The links triggered by the anchors may have acted on the
+            // media itself.
+            if (evt->getState ()
+                != (transition == Event::PAUSE ? Event::OCCURRING
+                                               : Event::PAUSED))
+              return false; // fail
+
             // Pause/resume the underlying player.
             g_assert_nonnull (_player);
             if (transition == Event::PAUSE)
@@ -387,7 +394,7 @@ Media::afterTransition (Event *evt, Event::Transition transition)
           else // non-lambda area
             {
               Time end;
-              g_assert (this->isOccurring ());
+              g_assert (!this->isSleeping ());
               evt->getInterval (nullptr, &end);
               if (transition == Event::ABORT)
                 TRACE ("abort %s (end=%" GINGA_TIME_FORMAT
-- 
2.43.0


From de66a6a5fcb772d7dd5e15b5deb8cf741cced5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 13/93] fix: do not carry the current focus over to the next
 document

Right after a document was started, until the first tick, keys were handled
with the focus of the document presented before it.
---
 lib/Formatter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 8153da2..bf28e1f 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -120,6 +120,9 @@ Formatter::start (const string &file, string *errmsg)
   if (_state != GINGA_STATE_STOPPED)
     return false;
 
+  // Forget the focus of the previous document.
+  Player::setCurrentFocus ("");
+
   // Parse document.
   g_assert_null (_doc);
   w = _opts.width;
-- 
2.43.0


From a286461847bc6dd880a501411bd2b6b35ea1e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 14/93] fix: keep the bookkeeping right when a paused object is
 started

The parent of the object counted it twice, and therefore never ended; the
pending actions of the interrupted occurrence were still run, and the player
of a media object stayed paused.
---
 lib/Media.cpp  |  6 ++++++
 lib/Object.cpp | 16 ++++++++++++++--
 lib/Switch.cpp | 18 +++++++++++++++---
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index d4c4948..7d63e25 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -272,6 +272,12 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                       }
                   }
               }
+            else if (evt->isLambda ())
+              {
+                // Restarted while paused.
+                g_assert_nonnull (_player);
+                _player->resume ();
+              }
             break;
           }
 
diff --git a/lib/Object.cpp b/lib/Object.cpp
index 63e5c82..a03f45d 100644
--- a/lib/Object.cpp
+++ b/lib/Object.cpp
@@ -440,9 +440,21 @@ Object::scheduleAttributionStop (Event *evt, const string &value, Time dur)
 void
 Object::doStart ()
 {
+  if (GINGA_TIME_IS_VALID (_time))
+    {
+      // Restarted while paused.  Discard what is left of the interrupted
+      // occurrence; the parent is already counting on this object.
+      for (auto evt : _events)
+        if (evt != _lambda)
+          evt->reset ();
+      _delayed.clear ();
+      _due.clear ();
+    }
+  else if (_parent != nullptr && instanceof (Context *, _parent))
+    {
+      cast (Context *, _parent)->incAwakeChildren ();
+    }
   _time = 0;
-  if (_parent != nullptr && instanceof (Context *, _parent))
-    cast (Context *, _parent)->incAwakeChildren ();
 
   // schedule set currentFocus if the object have focusIndex
   if (!this->getProperty ("focusIndex").empty ())
diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index d303f95..35d22d6 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -99,10 +99,16 @@ Switch::beforeTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
-          // Already started.  The only thing left to do is to start @lambda
-          // on behalf of the switchPort that made the selection.
           if (_selected != nullptr)
-            return evt->isLambda ();
+            {
+              // Restarted while paused.
+              if (this->isPaused ())
+                return _selected->getLambda ()->transition (transition);
+
+              // Already started.  The only thing left to do is to start
+              // @lambda on behalf of the switchPort that made the selection.
+              return evt->isLambda ();
+            }
 
           // Start parent context, if it is not started yet.
           if (instanceof (Context *, _parent) && _parent->isSleeping ())
@@ -189,6 +195,12 @@ Switch::afterTransition (Event *evt, Event::Transition transition)
       switch (transition)
         {
         case Event::START:
+          if (GINGA_TIME_IS_VALID (_time))
+            {
+              // Restarted while paused.
+              this->syncEvents (evt, Event::RESUME);
+              break;
+            }
           if (!evt->isLambda ())
             {
               // Started through a switchPort: the switch itself starts too.
-- 
2.43.0


From ca50d4af11d746ec262fc4fee990eb5abe75437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 15/93] fix: take percentages in property "bottom" from the
 screen height

As the other positions, and as the <region> attribute of the same name, it is
relative to the screen and not to the height of the object itself.
---
 lib/Player.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 6280960..599ead4 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -722,8 +722,7 @@ Player::doSetProperty (Property code, unused (const string &name),
       {
         int height = _formatter->getOptionInt ("height");
         _prop.rect.y = height - _prop.rect.height
-                       - ginga::parse_percent (value, _prop.rect.height, 0,
-                                               G_MAXINT);
+                       - ginga::parse_percent (value, height, 0, G_MAXINT);
         _dirty = true;
         break;
       }
-- 
2.43.0


From 3bb77bff16416f7d18a416c664569f46a9340e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 16/93] fix: do not apply right and bottom of nested regions to
 the screen

Both are relative to the parent region and are already part of the absolute
position that is computed for the region.
---
 lib/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index ab8d927..489885f 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2361,8 +2361,11 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "region", region_id,
                                                  "no such region");
                 }
+              // The region's right and bottom were already considered when its
+              // absolute position was computed.
               for (auto it : *region_elt->getAttributes ())
-                if (it.first != "id")
+                if (it.first != "id" && it.first != "right"
+                    && it.first != "bottom")
                   desc_elt->setAttribute (it.first, it.second);
             }
 
-- 
2.43.0


From 61b22eec41d3d9242031ab696fa9efa0ffb453cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 17/93] fix: resize objects that have no explicit size

Their default size is that of the screen, but it was not updated when the
screen was resized.
---
 lib/Formatter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index bf28e1f..2c81ae2 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -217,8 +217,9 @@ Formatter::resize (int width, int height)
 
       UPDATE_IF_HAVE ("top");
       UPDATE_IF_HAVE ("left");
-      UPDATE_IF_HAVE ("width");
-      UPDATE_IF_HAVE ("height");
+      // If absent, these depend on the size of the screen.
+      media->setProperty ("width", media->getProperty ("width"));
+      media->setProperty ("height", media->getProperty ("height"));
       UPDATE_IF_HAVE ("bottom");
       UPDATE_IF_HAVE ("right");
     }
-- 
2.43.0


From 85d39eb0ecbc98fe2526f02b284731490cc30ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 18/93] fix: animate bounds, location and size towards the
 given values

The target values were read from past the end of the list.
---
 lib/PlayerAnimator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index e091e0d..285ffb8 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -61,7 +61,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 4, 4);
       list_pos = ginga::parse_list (to, ',', 4, 4);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
       this->doSchedule ("width", *pre++, *pos++, dur);
@@ -73,7 +73,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("left", *pre++, *pos++, dur);
       this->doSchedule ("top", *pre++, *pos++, dur);
     }
@@ -83,7 +83,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
         list_pre = ginga::parse_list (from, ',', 2, 2);
       list_pos = ginga::parse_list (to, ',', 2, 2);
       auto pre = list_pre.begin ();
-      auto pos = list_pos.end ();
+      auto pos = list_pos.begin ();
       this->doSchedule ("width", *pre++, *pos++, dur);
       this->doSchedule ("height", *pre++, *pos++, dur);
     }
-- 
2.43.0


From 069fcc46dd8f94981f79f292502d8a1f3ee04e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 19/93] fix: animate transparency as such and not as opacity

An object whose transparency was animated to 100% became opaque.
---
 lib/PlayerAnimator.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 285ffb8..2a02bad 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -109,6 +109,16 @@ PlayerAnimator::schedule (const string &name, const string &from,
       this->doSchedule ("background:g", pre_g, pos_g, dur);
       this->doSchedule ("background:b", pre_b, pos_b, dur);
     }
+  else if (name == "transparency")
+    {
+      // The animated value is the opacity.
+      string pre;
+      if (from != "")
+        pre = xstrbuild ("%d", 255 - ginga::parse_pixel (from));
+      this->doSchedule (name, pre,
+                        xstrbuild ("%d", 255 - ginga::parse_pixel (to)),
+                        dur);
+    }
   else
     {
       this->doSchedule (name, from, to, dur);
@@ -363,8 +373,8 @@ PlayerAnimator::scheduleTransition (const string &notificationType,
         }
       else
         {
-          this->schedule ("transparency", "0", to_string (*alpha),
-                          _transIn->dur);
+          this->doSchedule ("transparency", "0", to_string (*alpha),
+                            _transIn->dur);
         }
     }
   else
-- 
2.43.0


From e5ae4df523b910a40e81024119a3593a2d272afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 20/93] fix: animate the background colour

Its components were animated from 0 to 255 but rounded to either 0 or 1, and
objects without background stayed without it.
---
 lib/PlayerAnimator.cpp | 48 ++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 2a02bad..a018372 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -89,25 +89,29 @@ PlayerAnimator::schedule (const string &name, const string &from,
     }
   else if (name == "background")
     {
-      Color pre = { 0, 0, 0, 255 };
-      Color pos;
-
-      string pre_r, pre_g, pre_b;
-      string pos_r, pos_g, pos_b;
-
-      pre = ginga::parse_color (from);
-      pre_r = xstrbuild ("%d", (int) CLAMP (pre.red * 255, 0, 255));
-      pre_g = xstrbuild ("%d", (int) CLAMP (pre.green * 255, 0, 255));
-      pre_b = xstrbuild ("%d", (int) CLAMP (pre.blue * 255, 0, 255));
+      Color pos = ginga::parse_color (to);
+      Color pre = (from != "") ? ginga::parse_color (from) : pos;
+      if (to == "")
+        {
+          pos = pre;
+          pos.alpha = 0;
+        }
 
-      pos = ginga::parse_color (to);
-      pos_r = xstrbuild ("%d", (int) CLAMP (pos.red * 255, 0, 255));
-      pos_g = xstrbuild ("%d", (int) CLAMP (pos.green * 255, 0, 255));
-      pos_b = xstrbuild ("%d", (int) CLAMP (pos.blue * 255, 0, 255));
+#define SCHEDULE(comp, field)                                              \
+  G_STMT_START                                                             \
+  {                                                                        \
+    AnimInfo *info                                                         \
+        = new AnimInfo ("background:" comp, pre.field, pos.field, dur);    \
+    info->init (pre.field, *_time);                                        \
+    _scheduled.push_back (info);                                           \
+  }                                                                        \
+  G_STMT_END
 
-      this->doSchedule ("background:r", pre_r, pos_r, dur);
-      this->doSchedule ("background:g", pre_g, pos_g, dur);
-      this->doSchedule ("background:b", pre_b, pos_b, dur);
+      SCHEDULE ("r", red);
+      SCHEDULE ("g", green);
+      SCHEDULE ("b", blue);
+      SCHEDULE ("a", alpha);
+#undef SCHEDULE
     }
   else if (name == "transparency")
     {
@@ -239,15 +243,19 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
         }
       else if (name == "background:r")
         {
-          UPDATE (info, double, bgColor->red, round, 0., 1.);
+          UPDATE (info, double, bgColor->red, double, 0., 1.);
         }
       else if (name == "background:g")
         {
-          UPDATE (info, double, bgColor->green, round, 0., 1.);
+          UPDATE (info, double, bgColor->green, double, 0., 1.);
         }
       else if (name == "background:b")
         {
-          UPDATE (info, double, bgColor->blue, round, 0., 1.);
+          UPDATE (info, double, bgColor->blue, double, 0., 1.);
+        }
+      else if (name == "background:a")
+        {
+          UPDATE (info, double, bgColor->alpha, double, 0., 1.);
         }
       else if (name == "transparency")
         {
-- 
2.43.0


From ada8587b1d1b8b0dbdf02e71bfa4a88dce099b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 21/93] fix: free animations and transitions

---
 lib/PlayerAnimator.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index a018372..704d193 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -41,6 +41,8 @@ PlayerAnimator::~PlayerAnimator ()
 void
 PlayerAnimator::clear ()
 {
+  for (AnimInfo *info : _scheduled)
+    delete info;
   _scheduled.clear ();
 }
 
@@ -132,7 +134,10 @@ PlayerAnimator::schedule (const string &name, const string &from,
 static bool
 isDone (AnimInfo *info)
 {
-  return info->isDone ();
+  bool done = info->isDone ();
+  if (done)
+    delete info;
+  return done;
 }
 
 void
@@ -292,12 +297,14 @@ PlayerAnimator::setTransitionProperties (const string &name,
 
   if (name == "transIn")
     {
+      delete _transIn;
       _transIn = new TransitionInfo (
           type, subtype, dur, startProgress, endProgress, direction,
           fadeColor, horzRepeat, vertRepeat, borderWidth, borderColor);
     }
   else if (name == "transOut")
     {
+      delete _transOut;
       _transOut = new TransitionInfo (
           type, subtype, dur, startProgress, endProgress, direction,
           fadeColor, horzRepeat, vertRepeat, borderWidth, borderColor);
-- 
2.43.0


From 31381e7002aaf4726d40563ad202f1dda953a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 22/93] fix: do not write past the crop polygon when a diagonal
 wipe ends

Both animations of the wipe end in the same frame; the first one cleared the
polygon and the second one updated its points all the same.
---
 lib/PlayerAnimator.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 704d193..3d5d87b 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -140,6 +140,13 @@ isDone (AnimInfo *info)
   return done;
 }
 
+static bool
+isWipe (AnimInfo *info)
+{
+  return xstrhasprefix (info->getName (), "barwipe:")
+         || xstrhasprefix (info->getName (), "diagonalwipe:");
+}
+
 void
 PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
                         list<int> *cropPolygon)
@@ -167,6 +174,8 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
       g_assert (!info->isDone ());
 
       name = info->getName ();
+      if (isWipe (info) && cropPolygon->empty ())
+        continue; // nothing to do
       if (name == "top")
         {
           UPDATE (info, int, rect->y, lround, G_MININT, G_MAXINT);
@@ -190,9 +199,6 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
           UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
           advance (it, 2);
           UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-
-          if (info->isDone ())
-            cropPolygon->clear ();
         }
       else if (name == "barwipe:leftToRight")
         {
@@ -200,9 +206,6 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
           UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
           advance (it, 6);
           UPDATE (info, int, *it, lround, G_MININT, G_MAXINT);
-
-          if (info->isDone ())
-            cropPolygon->clear ();
         }
       else if (name == "diagonalwipe:topLeft:x")
         {
@@ -222,9 +225,6 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
                   info, "diagonalwipe:topLeft:x", to_string (rect->y),
                   to_string (rect->y + rect->height), info->getDuration ());
             }
-
-          if (info->isDone ())
-            cropPolygon->clear ();
         }
       else if (name == "diagonalwipe:topLeft:y")
         {
@@ -242,9 +242,6 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
                   info, "diagonalwipe:topLeft:y", to_string (rect->x),
                   to_string (rect->x + rect->width), info->getDuration ());
             }
-
-          if (info->isDone ())
-            cropPolygon->clear ();
         }
       else if (name == "background:r")
         {
@@ -274,6 +271,11 @@ PlayerAnimator::update (Rect *rect, Color *bgColor, guint8 *alpha,
     }
 
   _scheduled.remove_if (isDone);
+
+  // Stop cropping after the last wipe.
+  if (std::find_if (_scheduled.begin (), _scheduled.end (), isWipe)
+      == _scheduled.end ())
+    cropPolygon->clear ();
 }
 
 void
-- 
2.43.0


From 30cd6771b52d969d19cdadf53af58c67a64b0eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 23/93] fix: set the properties that cannot be animated at once

Attributions with a duration to any property other than those that can be
animated never reached the player.
---
 lib/Player.cpp         |  5 ++++-
 lib/PlayerAnimator.cpp | 25 +++++++++++++++++++++++++
 lib/PlayerAnimator.h   |  2 ++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index 599ead4..fcd7ca9 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -349,7 +349,10 @@ void
 Player::schedulePropertyAnimation (const string &name, const string &from,
                                    const string &to, Time dur)
 {
-  _animator->schedule (name, from, to, dur);
+  if (PlayerAnimator::canAnimate (name))
+    _animator->schedule (name, from, to, dur);
+  else
+    this->setProperty (name, to);
 }
 
 void
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 3d5d87b..5f42f52 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -46,6 +46,31 @@ PlayerAnimator::clear ()
   _scheduled.clear ();
 }
 
+bool
+PlayerAnimator::canAnimate (const string &name)
+{
+  return name == "bounds" || name == "location" || name == "size"
+         || name == "left" || name == "top" || name == "width"
+         || name == "height" || name == "background"
+         || name == "transparency";
+}
+
+void
+PlayerAnimator::cancel (const string &name)
+{
+  for (auto it = _scheduled.begin (); it != _scheduled.end ();)
+    {
+      string other = (*it)->getName ();
+      if (other == name || xstrhasprefix (other, name + ":"))
+        {
+          delete *it;
+          it = _scheduled.erase (it);
+        }
+      else
+        ++it;
+    }
+}
+
 void
 PlayerAnimator::schedule (const string &name, const string &from,
                           const string &to, Time dur)
diff --git a/lib/PlayerAnimator.h b/lib/PlayerAnimator.h
index b71cf74..59c8cce 100644
--- a/lib/PlayerAnimator.h
+++ b/lib/PlayerAnimator.h
@@ -87,6 +87,8 @@ public:
   PlayerAnimator (Formatter *, Time *);
   ~PlayerAnimator ();
   void clear ();
+  static bool canAnimate (const string &);
+  void cancel (const string &);
   void schedule (const string &, const string &, const string &, Time);
   void update (Rect *, Color *, guint8 *, list<int> *);
   void setTransitionProperties (const string &, const string &);
-- 
2.43.0


From d30f62193dc303311a5b4c927cfc21819a936900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 24/93] fix: let the last value set win over running animations

A property set while it was being animated kept following the animation, so
that the object ended up with a value other than that of its property.
---
 lib/Player.cpp         | 3 +++
 lib/PlayerAnimator.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index fcd7ca9..ff3db35 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -296,6 +296,9 @@ Player::setProperty (const string &name, const string &value)
   string defval;
   string _value;
 
+  // The last value set wins.
+  _animator->cancel ((name == "backgroundColor") ? "background" : name);
+
   if (name == "transIn" || name == "transOut")
     _animator->setTransitionProperties (name, value);
 
diff --git a/lib/PlayerAnimator.cpp b/lib/PlayerAnimator.cpp
index 5f42f52..9493b24 100644
--- a/lib/PlayerAnimator.cpp
+++ b/lib/PlayerAnimator.cpp
@@ -134,6 +134,7 @@ PlayerAnimator::schedule (const string &name, const string &from,
   }                                                                        \
   G_STMT_END
 
+      this->cancel (name);
       SCHEDULE ("r", red);
       SCHEDULE ("g", green);
       SCHEDULE ("b", blue);
@@ -513,6 +514,7 @@ PlayerAnimator::doSchedule (const string &name, const string &from,
       target = ginga::parse_percent (to, 100, 0, G_MAXINT);
     }
 
+  this->cancel (name);
   info = new AnimInfo (name, current, target, dur);
   if (from != "")
     info->init (current, *_time);
-- 
2.43.0


From 207e9fee90c156bb50e8fa1e3992cc1596048634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 25/93] fix: resolve transitions of imported descriptors

---
 lib/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 489885f..65167bb 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -508,8 +508,8 @@ static map<string, ParserSyntaxElt> parser_syntax_table = {
             { "focusSrc", 0 },
             { "focusSelSrc", 0 },
             { "selBorderColor", 0 },
-            { "transIn", 0 },
-            { "transOut", 0 },
+            { "transIn", ATTR_OPT_IDREF },
+            { "transOut", ATTR_OPT_IDREF },
             // extra attributes
             { "left", 0 },
             { "right", 0 },
-- 
2.43.0


From b0a9c1ee6bb23dce468e4f34149bd5873f907c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 26/93] fix: do not mix up the attributes of transitions

---
 lib/Parser.cpp | 55 +++++++++++++-------------------------------------
 1 file changed, 14 insertions(+), 41 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 65167bb..7a1f7dd 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2346,6 +2346,12 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
           ParserElt *region_elt;
 
           static const string trans_attr[] = { "transIn", "transOut" };
+          static const map<string, string> trans_defaults
+              = { { "subtype", "" },       { "dur", "0" },
+                  { "startProgress", "0" }, { "endProgress", "0" },
+                  { "direction", "forward" }, { "fadeColor", "" },
+                  { "horzRepeat", "0" },    { "vertRepeat", "0" },
+                  { "borderWidth", "0" },   { "borderColor", "" } };
           string trans_id;
           ParserElt *trans_elt;
 
@@ -2386,47 +2392,14 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                 }
 
               g_assert (trans_elt->getAttribute ("type", &str));
-              val = "{type='" + str + "',";
-              val += xstrbuild (
-                  "\
-subtype='%s',\
-dur='%s',\
-startProgress='%s',\
-endProgress='%s',\
-direction='%s',\
-fadeColor='%s',\
-horzRepeat='%s',\
-vertRepeat='%s',\
-borderWidth='%s',\
-borderColor='%s'}",
-                  (trans_elt->getAttribute ("subtype", &str)) ? str.c_str ()
-                                                              : "",
-                  +(trans_elt->getAttribute ("dur", &str)) ? str.c_str ()
-                                                           : "0",
-                  +(trans_elt->getAttribute ("startProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("endProgress", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("direction", &str))
-                      ? str.c_str ()
-                      : "forward",
-                  +(trans_elt->getAttribute ("fadeColor", &str))
-                      ? str.c_str ()
-                      : "",
-                  +(trans_elt->getAttribute ("horzRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("vertRepeat", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderWidth", &str))
-                      ? str.c_str ()
-                      : "0",
-                  +(trans_elt->getAttribute ("borderColor", &str))
-                      ? str.c_str ()
-                      : "");
+              val = "{type='" + str + "'";
+              for (auto it : trans_defaults)
+                {
+                  if (!trans_elt->getAttribute (it.first, &str))
+                    str = it.second;
+                  val += "," + it.first + "='" + str + "'";
+                }
+              val += "}";
               desc_elt->setAttribute (trans_attr[i], val);
             }
         }
-- 
2.43.0


From 7c464954a3bf990f84770ed945b18fca9b4a7ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 27/93] fix: do not leak the id of documents without one

---
 lib/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 7a1f7dd..6373174 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2304,15 +2304,15 @@ bool
 ParserState::pushNcl (ParserState *st, ParserElt *elt)
 {
   Context *root;
-  string *id = new string ();
+  string id;
 
   root = st->_doc->getRoot ();
   g_assert_nonnull (root);
 
-  if (elt->getAttribute ("id", id))
+  if (elt->getAttribute ("id", &id))
     {
-      root->addAlias (*id);
-      st->_doc->setData ("id", id, xstrdelete);
+      root->addAlias (id);
+      st->_doc->setData ("id", new string (id), xstrdelete);
     }
 
   st->objStackPush (root);
-- 
2.43.0


From 1a1a78289eded90451ae4f833e86aa0f614593f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 28/93] fix: do not leak unresolved references of refused
 documents

---
 lib/Parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 6373174..703fd81 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2283,6 +2283,14 @@ ParserState::process (xmlDoc *xml)
 
   if (unlikely (!this->processNode (root)))
     {
+      // Discard the media objects that are referred to but were not found.
+      set<Media *> orphans;
+      for (auto it : _referMap)
+        if (it.second->getParent () == nullptr)
+          orphans.insert (it.second);
+      for (auto media : orphans)
+        delete media;
+
       delete _doc;
       _doc = nullptr;
       return nullptr;
-- 
2.43.0


From b21777dabc16542dddb8205f2aef1e9514496f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 29/93] fix: destroy the children of a switch with it

---
 lib/Switch.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Switch.cpp b/lib/Switch.cpp
index 35d22d6..27c8b13 100644
--- a/lib/Switch.cpp
+++ b/lib/Switch.cpp
@@ -34,6 +34,9 @@ Switch::~Switch ()
 {
   for (auto item : _rules)
     delete item.second;
+
+  for (auto child : _children)
+    delete child;
 }
 
 // Public: Object.
-- 
2.43.0


From 2950a2ea782d5224f790d9fb4a8e5e89941cd4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 30/93] fix: keep every reference to a settings object declared
 after it

---
 lib/Parser.cpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 703fd81..742304e 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3924,17 +3924,39 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
           // if there are refers to this MediaSettings, those refers
           // are using a tmp Media, which should be this MediaSettings
           st->referMapIndex (id, &tmpMedia);
-          if (tmpMedia)
+          if (tmpMedia && tmpMedia != media)
             {
-              auto it = st->_referMap.begin ();
-              while ((*it).second == tmpMedia)
+              for (auto &entry : st->_referMap)
+                if (entry.second == tmpMedia)
+                  entry.second = media;
+              for (auto &alias : *tmpMedia->getAliases ())
+                media->addAlias (alias.first, alias.second);
+              for (auto evt : *tmpMedia->getEvents ())
                 {
-                  st->_referMap[(*it).first] = media;
-                  media->addAlias ((*it).first);
-                  it++;
+                  string key = evt->getId ();
+                  if (evt->getType () == Event::ATTRIBUTION)
+                    {
+                      string value = tmpMedia->getProperty (key);
+                      media->addAttributionEvent (key);
+                      if (value != "" && media->getProperty (key) == "")
+                        media->setProperty (key, value);
+                    }
+                  else if (evt->getType () == Event::PRESENTATION
+                           && !evt->isLambda ())
+                    {
+                      if (evt->getLabel () != "")
+                        {
+                          media->addPresentationEvent (key, evt->getLabel ());
+                        }
+                      else
+                        {
+                          Time begin, end;
+                          evt->getInterval (&begin, &end);
+                          media->addPresentationEvent (key, begin, end);
+                        }
+                    }
                 }
-              if (it != st->_referMap.begin ())
-                delete tmpMedia;
+              delete tmpMedia;
             }
 
           gchar *scheme = g_uri_parse_scheme (src.c_str ());
-- 
2.43.0


From e023848e7fd01aa13a2c2081ae720ad1529d2c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 31/93] fix: check references before using what they refer to

---
 lib/Parser.cpp | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 742304e..92d3210 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2425,6 +2425,26 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
           string desc_id;
           string refer;
 
+          // Check refer.
+          if (media_elt->getAttribute ("refer", &refer))
+            {
+              ParserElt *refer_elt;
+
+              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
+                                                    { "media" })))
+                {
+                  return st->errEltBadAttribute (media_elt->getNode (),
+                                                 "refer", refer,
+                                                 "no such media object");
+                }
+              if (refer_elt->getAttribute ("refer", nullptr))
+                {
+                  return st->errEltBadAttribute (
+                      media_elt->getNode (), "refer", refer,
+                      "cannot refer to a reference");
+                }
+            }
+
           // Move descriptor attributes.
           if (media_elt->getAttribute ("descriptor", &desc_id))
             {
@@ -2453,26 +2473,6 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                   media->setProperty (it.first, it.second);
                 }
             }
-
-          // Check refer.
-          if (media_elt->getAttribute ("refer", &refer))
-            {
-              ParserElt *refer_elt;
-
-              if (unlikely (!st->eltCacheIndexById (refer, &refer_elt,
-                                                    { "media" })))
-                {
-                  return st->errEltBadAttribute (media_elt->getNode (),
-                                                 "refer", refer,
-                                                 "no such media object");
-                }
-              if (refer_elt->getAttribute ("refer", nullptr))
-                {
-                  return st->errEltBadAttribute (
-                      media_elt->getNode (), "refer", refer,
-                      "cannot refer to a reference");
-                }
-            }
         }
     }
 
-- 
2.43.0


From 908acdd383699dd90c7f958ff4524b7c859e6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 32/93] fix: refuse documents that use the ids of the engine's
 own objects

---
 lib/Parser.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 92d3210..cbe474e 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -1091,8 +1091,10 @@ ParserElt::setData (const string &key, void *value, UserDataCleanFunc fn)
 string
 ParserState::genId ()
 {
-  string id = xstrbuild ("__unamed-%d__", _genid++);
-  g_assert_false (isInUniqueSet (id));
+  string id;
+  do
+    id = xstrbuild ("__unamed-%d__", _genid++);
+  while (isInUniqueSet (id));
   return id;
 }
 
@@ -3563,6 +3565,11 @@ ParserState::pushContext (ParserState *st, ParserElt *elt)
       g_assert_nonnull (parent);
 
       g_assert (elt->getAttribute ("id", &id));
+      if (unlikely (st->_doc->getObjectByIdOrAlias (id) != nullptr))
+        {
+          return st->errEltBadAttribute (elt->getNode (), "id", id,
+                                         "must be unique");
+        }
       ctx = new Context (id);
       parent->addChild (ctx);
     }
@@ -3663,6 +3670,11 @@ ParserState::pushSwitch (ParserState *st, ParserElt *elt)
   g_assert_nonnull (parent);
 
   g_assert (elt->getAttribute ("id", &id));
+  if (unlikely (st->_doc->getObjectByIdOrAlias (id) != nullptr))
+    {
+      return st->errEltBadAttribute (elt->getNode (), "id", id,
+                                     "must be unique");
+    }
   swtch = new Switch (id);
   parent->addChild (swtch);
 
@@ -3990,6 +4002,11 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
                 }
               xmlFree (s);
             }
+          if (unlikely (st->_doc->getObjectByIdOrAlias (id) != nullptr))
+            {
+              return st->errEltBadAttribute (elt->getNode (), "id", id,
+                                             "must be unique");
+            }
           // create Media if not found refer that created the referred Media
           if (!st->referMapIndex (id, &media))
             {
-- 
2.43.0


From 7c3b4428433beefec368d94f96828cc57de1f857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 33/93] fix: refuse switches that select themselves

---
 lib/Parser.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index cbe474e..32f9e6b 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -3790,6 +3790,14 @@ ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
         return false;
 
       g_assert_nonnull (obj);
+      if (unlikely (obj == swtch))
+        {
+          string label = (bind_elt->getTag () == "bindRule") ? "constituent"
+                                                             : "component";
+          return st->errEltBadAttribute (bind_elt->getNode (), label,
+                                         swtch->getId (),
+                                         "no such object in scope");
+        }
       it.second = obj;
     }
 
@@ -3816,6 +3824,13 @@ ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
           if (unlikely (!st->resolveInterface (swtch, mapping_elt, &evt)))
             return false;
 
+          if (unlikely (evt->getObject () == swtch))
+            {
+              return st->errEltBadAttribute (mapping_elt->getNode (),
+                                             "component", comp,
+                                             "no such object in scope");
+            }
+
           mapping_evts.push_back (evt);
         }
 
-- 
2.43.0


From c48fa1756e01f055e49369ab498ac06823995ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 34/93] fix: refuse documents whose fonts cannot be loaded
 instead of aborting

---
 lib/Parser.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 32f9e6b..e0be041 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4259,7 +4259,14 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
       src = toCPPString (s);
       xmlFree (s);
-      src = xpathfromuri (src.c_str ());
+      gchar *path = g_filename_from_uri (src.c_str (), nullptr, nullptr);
+      if (unlikely (path == nullptr))
+        {
+          return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                         "not a local file");
+        }
+      src = string (path);
+      g_free (path);
     }
   else
     src = xpathmakeabs (src);
@@ -4301,7 +4308,12 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       //      FcPatternPrint (new_font);
     }
 
-  return (fontAddStatus == FcTrue);
+  if (unlikely (fontAddStatus != FcTrue))
+    {
+      return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                     "cannot load font");
+    }
+  return true;
 }
 
 // External API.
-- 
2.43.0


From 0120f254cfd022e2c2f8dd556fca6117f4131f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 35/93] fix: initialise the errors of path conversions

---
 lib/aux-ginga.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/aux-ginga.cpp b/lib/aux-ginga.cpp
index 263db7e..ab74b37 100644
--- a/lib/aux-ginga.cpp
+++ b/lib/aux-ginga.cpp
@@ -662,7 +662,7 @@ string
 xpathfromuri (const string &uri)
 {
   string path;
-  GError *err;
+  GError *err = nullptr;
 
   gchar *g_path = g_filename_from_uri (uri.c_str (), nullptr, &err);
   if (g_path == nullptr)
@@ -698,7 +698,7 @@ xurifromsrc (const string &src, const string &basesrc = "")
       else
         abs = xpathbuildabs (basesrc, src);
 
-      GError *err;
+      GError *err = nullptr;
       gchar *g_uri = g_filename_to_uri (abs.c_str (), NULL, &err);
       if (g_uri == nullptr)
         {
-- 
2.43.0


From 2056da8e68b4a45be01cd3f9b00b561c6a2c8bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 36/93] fix: resolve ports when all that they refer to is known

---
 lib/Parser.cpp | 180 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 120 insertions(+), 60 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index e0be041..96ddd9e 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -321,6 +321,8 @@ private:
   // Reference solving.
   bool resolveComponent (Composition *, ParserElt *, Object **);
   bool resolveInterface (Composition *, ParserElt *, Event **);
+  bool resolvePorts (Context *, ParserElt *);
+  bool resolveSwitchPorts (Switch *, ParserElt *);
   string resolveParameter (const string &, const map<string, string> *,
                            const map<string, string> *,
                            const map<string, string> *);
@@ -1807,6 +1809,86 @@ fail:
                                    "no such interface");
 }
 
+/**
+ * @brief Resolves the ports of a context and adds them to it.
+ *
+ * @param ctx The context.
+ * @param elt The \<body\> or \<context\> element.
+ * @return \c true if successful, or \c false otherwise.
+ */
+bool
+ParserState::resolvePorts (Context *ctx, ParserElt *elt)
+{
+  list<string> *ports;
+
+  UDATA_GET (elt, "ports", &ports);
+  for (auto port_id : *ports)
+    {
+      ParserElt *port_elt;
+      Event *evt;
+
+      g_assert (this->eltCacheIndexById (port_id, &port_elt, { "port" }));
+      if (unlikely (!this->resolveInterface (ctx, port_elt, &evt)))
+        return false;
+
+      ctx->addPort (evt);
+    }
+
+  return true;
+}
+
+/**
+ * @brief Resolves the ports of a switch and adds them to it.
+ *
+ * Each switchPort is added as a new PresentationEvent, which will be handled
+ * internally by the switch.
+ *
+ * @param swtch The switch.
+ * @param elt The \<switch\> element.
+ * @return \c true if successful, or \c false otherwise.
+ */
+bool
+ParserState::resolveSwitchPorts (Switch *swtch, ParserElt *elt)
+{
+  list<string> *switchPorts;
+
+  UDATA_GET (elt, "switchPorts", &switchPorts);
+  for (auto switchPort_id : *switchPorts)
+    {
+      ParserElt *switchPort_elt;
+      list<ParserElt *> *mappings;
+
+      g_assert (this->eltCacheIndexById (switchPort_id, &switchPort_elt,
+                                       { "switchPort" }));
+      UDATA_GET (switchPort_elt, "mappings", &mappings);
+
+      list<Event *> mapping_evts;
+      for (auto &mapping_elt : *mappings)
+        {
+          Event *evt;
+          string comp, interf;
+          mapping_elt->getAttribute ("component", &comp);
+          mapping_elt->getAttribute ("interface", &interf);
+
+          if (unlikely (!this->resolveInterface (swtch, mapping_elt, &evt)))
+            return false;
+
+          if (unlikely (evt->getObject () == swtch))
+            {
+              return this->errEltBadAttribute (mapping_elt->getNode (),
+                                             "component", comp,
+                                             "no such object in scope");
+            }
+
+          mapping_evts.push_back (evt);
+        }
+
+      swtch->addSwitchPort (switchPort_id, mapping_evts);
+    }
+
+  return true;
+}
+
 /**
  * @brief Resolve reference to (bind, link, or ghost) parameter.
  *
@@ -2344,8 +2426,42 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
   list<ParserElt *> desc_list;
   list<ParserElt *> media_list;
   list<ParserElt *> switch_list;
+  list<ParserElt *> ctx_list;
   list<ParserElt *> link_list;
 
+  // Resolve the ports of switches, innermost first, and then of contexts.
+  if (st->eltCacheIndexByTag ({ "switch" }, &switch_list) > 0)
+    {
+      for (auto it = switch_list.rbegin (); it != switch_list.rend (); ++it)
+        {
+          string id;
+          Switch *swtch;
+
+          g_assert ((*it)->getAttribute ("id", &id));
+          swtch = cast (Switch *, st->_doc->getObjectById (id));
+          g_assert_nonnull (swtch);
+          if (unlikely (!st->resolveSwitchPorts (swtch, *it)))
+            return false;
+        }
+    }
+  if (st->eltCacheIndexByTag ({ "context", "body" }, &ctx_list) > 0)
+    {
+      for (auto ctx_elt : ctx_list)
+        {
+          string id;
+          Context *ctx = st->_doc->getRoot ();
+
+          if (ctx_elt->getTag () == "context")
+            {
+              g_assert (ctx_elt->getAttribute ("id", &id));
+              ctx = cast (Context *, st->_doc->getObjectById (id));
+            }
+          g_assert_nonnull (ctx);
+          if (unlikely (!st->resolvePorts (ctx, ctx_elt)))
+            return false;
+        }
+    }
+
   // Resolve descriptor references to region/transition.
   // (I.e., move region/transition attributes to associated descriptor.)
   if (st->eltCacheIndexByTag ({ "descriptor" }, &desc_list) > 0)
@@ -2480,7 +2596,7 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
 
   // Resolve bind rules and default components in switches.
   // (I.e., finish parsing <bindRule> and <defaultComponent>.)
-  if (st->eltCacheIndexByTag ({ "switch" }, &switch_list) > 0)
+  if (switch_list.size () > 0)
     {
       for (auto switch_elt : switch_list)
         {
@@ -3593,28 +3709,9 @@ ParserState::pushContext (ParserState *st, ParserElt *elt)
  * @return \c true if successful, or \c false otherwise.
  */
 bool
-ParserState::popContext (ParserState *st, ParserElt *elt)
+ParserState::popContext (ParserState *st, unused (ParserElt *elt))
 {
-  Context *ctx;
-  list<string> *ports;
-
-  ctx = cast (Context *, st->objStackPeek ());
-  g_assert_nonnull (ctx);
-
-  // Resolve port references.
-  UDATA_GET (elt, "ports", &ports);
-  for (auto port_id : *ports)
-    {
-      ParserElt *port_elt;
-      Event *evt;
-
-      g_assert (st->eltCacheIndexById (port_id, &port_elt, { "port" }));
-      if (unlikely (!st->resolveInterface (ctx, port_elt, &evt)))
-        return false;
-
-      ctx->addPort (evt);
-    }
-
+  g_assert (instanceof (Context *, st->objStackPeek ()));
   st->objStackPop ();
   return true;
 }
@@ -3767,11 +3864,10 @@ ParserState::pushMapping (ParserState *st, ParserElt *elt)
  * @return \c true if successful, or \c false otherwise.
  */
 bool
-ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
+ParserState::popSwitch (ParserState *st, ParserElt *elt)
 {
   Switch *swtch;
   list<pair<ParserElt *, Object *> > *rules;
-  list<string> *switchPorts;
 
   swtch = cast (Switch *, st->objStackPeek ());
   g_assert_nonnull (swtch);
@@ -3801,42 +3897,6 @@ ParserState::popSwitch (ParserState *st, unused (ParserElt *elt))
       it.second = obj;
     }
 
-  // Resolve switchPort references (each switchPort is added as a new
-  // PresentationEvent, which will be handled internally by the switch).
-  UDATA_GET (elt, "switchPorts", &switchPorts);
-  for (auto switchPort_id : *switchPorts)
-    {
-      ParserElt *switchPort_elt;
-      list<ParserElt *> *mappings;
-
-      g_assert (st->eltCacheIndexById (switchPort_id, &switchPort_elt,
-                                       { "switchPort" }));
-      UDATA_GET (switchPort_elt, "mappings", &mappings);
-
-      list<Event *> mapping_evts;
-      for (auto &mapping_elt : *mappings)
-        {
-          Event *evt;
-          string comp, interf;
-          mapping_elt->getAttribute ("component", &comp);
-          mapping_elt->getAttribute ("interface", &interf);
-
-          if (unlikely (!st->resolveInterface (swtch, mapping_elt, &evt)))
-            return false;
-
-          if (unlikely (evt->getObject () == swtch))
-            {
-              return st->errEltBadAttribute (mapping_elt->getNode (),
-                                             "component", comp,
-                                             "no such object in scope");
-            }
-
-          mapping_evts.push_back (evt);
-        }
-
-      swtch->addSwitchPort (switchPort_id, mapping_evts);
-    }
-
   st->objStackPop ();
 
   return true;
-- 
2.43.0


From 0c7baf18244614a75dbccac79205d6a2bf9ae9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 37/93] fix: keep right and bottom of regions that are not
 nested

---
 lib/Parser.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 96ddd9e..c058118 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -2493,11 +2493,15 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                                                  "region", region_id,
                                                  "no such region");
                 }
-              // The region's right and bottom were already considered when its
-              // absolute position was computed.
+              // The right and bottom of a nested region are relative to its
+              // parent and were already considered when its absolute position
+              // was computed.
+              bool nested
+                  = g_str_equal (region_elt->getParentNode ()->name, "region");
               for (auto it : *region_elt->getAttributes ())
-                if (it.first != "id" && it.first != "right"
-                    && it.first != "bottom")
+                if (it.first != "id"
+                    && !(nested
+                         && (it.first == "right" || it.first == "bottom")))
                   desc_elt->setAttribute (it.first, it.second);
             }
 
-- 
2.43.0


From 8089deb330a21fe6c48d1fe5c2df46d1f3b3a88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 38/93] fix: do not leak the predicates of links that are
 refused

---
 lib/Parser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index c058118..a9ab286 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -266,6 +266,9 @@ private:
   ///< Reference map for solving the refer attribute in \<media\>.
   map<string, Media *> _referMap;
 
+  /// Predicates of the conditions of the link that is being resolved.
+  list<Predicate *> _linkPreds;
+
   string genId ();
   string getURI ();
   bool isInUniqueSet (const string &);
@@ -2375,6 +2378,10 @@ ParserState::process (xmlDoc *xml)
       for (auto media : orphans)
         delete media;
 
+      // Discard the predicates of the link that could not be resolved.
+      for (auto pred : _linkPreds)
+        delete pred;
+
       delete _doc;
       _doc = nullptr;
       return nullptr;
@@ -2932,12 +2939,16 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
                     }
                 }
 
+              if (act.predicate != nullptr)
+                st->_linkPreds.push_back (act.predicate);
+
               if (role->condition)
                 conditions.push_back (act);
               else
                 actions.push_back (act);
             }
           ctx->addLink (conditions, actions);
+          st->_linkPreds.clear (); // now owned by context
         }
     }
 
-- 
2.43.0


From 04b85441357cb7682808da198f840663974a25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 39/93] fix: keep the current focus of each document apart

---
 lib/Formatter.cpp     |  3 ---
 lib/MediaSettings.cpp |  9 ---------
 lib/MediaSettings.h   |  1 -
 lib/Player.cpp        | 21 +++++----------------
 lib/Player.h          |  5 -----
 5 files changed, 5 insertions(+), 34 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 2c81ae2..52c4732 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -120,9 +120,6 @@ Formatter::start (const string &file, string *errmsg)
   if (_state != GINGA_STATE_STOPPED)
     return false;
 
-  // Forget the focus of the previous document.
-  Player::setCurrentFocus ("");
-
   // Parse document.
   g_assert_null (_doc);
   w = _opts.width;
diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index c820fd9..9b58a55 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -44,15 +44,6 @@ MediaSettings::getObjectTypeAsString ()
   return "MediaSettings";
 }
 
-void
-MediaSettings::setProperty (const string &name, const string &value,
-                            Time dur)
-{
-  if (name == "service.currentFocus")
-    Player::setCurrentFocus (value);
-  Media::setProperty (name, value, dur);
-}
-
 void
 MediaSettings::sendTick (Time total, Time diff, Time frame)
 {
diff --git a/lib/MediaSettings.h b/lib/MediaSettings.h
index 28524dd..d27de9e 100644
--- a/lib/MediaSettings.h
+++ b/lib/MediaSettings.h
@@ -30,7 +30,6 @@ public:
 
   // Object:
   string getObjectTypeAsString () override;
-  void setProperty (const string &, const string &, Time) override;
   void sendTick (Time, Time, Time) override;
 
   // Media;
diff --git a/lib/Player.cpp b/lib/Player.cpp
index ff3db35..a46183b 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -20,6 +20,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 
 #include "Player.h"
 #include "Media.h"
+#include "MediaSettings.h"
 
 #include "PlayerImage.h"
 #include "PlayerText.h"
@@ -209,7 +210,10 @@ Player::getZ (int *zindex, int *zorder)
 bool
 Player::isFocused ()
 {
-  return _prop.focusIndex != "" && _prop.focusIndex == _currentFocus;
+  MediaSettings *settings = _media->getDocument ()->getSettings ();
+  return _prop.focusIndex != ""
+         && _prop.focusIndex
+                == settings->getProperty ("service.currentFocus");
 }
 
 Time
@@ -493,21 +497,6 @@ void Player::sendKeyEvent (unused (const string &key), unused (bool press))
 
 // Public: Static.
 
-// Current focus index value.
-string Player::_currentFocus = "";
-
-string
-Player::getCurrentFocus ()
-{
-  return _currentFocus;
-}
-
-void
-Player::setCurrentFocus (const string &index)
-{
-  _currentFocus = index;
-}
-
 Player::Property
 Player::getPlayerProperty (const string &name, string *defval)
 {
diff --git a/lib/Player.h b/lib/Player.h
index 461fb06..0a308aa 100644
--- a/lib/Player.h
+++ b/lib/Player.h
@@ -123,8 +123,6 @@ public:
   }
 
   // Static.
-  static string getCurrentFocus ();
-  static void setCurrentFocus (const string &);
   static Property getPlayerProperty (const string &, string *);
   static bool getMimeForURI (const string &, string*);
   static Player *createPlayer (Formatter *, Media *, const string &,
@@ -169,9 +167,6 @@ protected:
 
 private:
   void redrawDebuggingInfo (cairo_t *);
-
-  // Static.
-  static string _currentFocus; // current (global) focus index
 };
 
 }
-- 
2.43.0


From 97cd7dc81cdb34980f41907128cc2c02157519bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 40/93] fix: release the web services along with the formatter

The formatter never deleted them, stopping them before they were started
dereferenced null, and every new presentation started another server on
top of the running one.
---
 lib/Formatter.cpp   |  1 +
 lib/WebServices.cpp | 21 +++++++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index 52c4732..a0a517c 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -473,6 +473,7 @@ Formatter::Formatter (const GingaOptions *opts) : Ginga (opts)
 Formatter::~Formatter ()
 {
   this->stop ();
+  delete _webservices;
 }
 
 /**
diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 4a86740..dc0c0a4 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -39,14 +39,13 @@ WebServices::WebServices (Formatter *fmt)
   _client = nullptr;
   _server = nullptr;
   _state = WS_STATE_STOPPED;
+  host_addr = nullptr;
+  host_port = 0;
 }
 
 WebServices::~WebServices ()
 {
   this->stop ();
-  g_object_unref (_resource_group);
-  g_object_unref (_client);
-  g_object_unref (_server);
 }
 
 bool
@@ -54,9 +53,15 @@ WebServices::stop ()
 {
   _state = WS_STATE_STOPPED;
   // stop ssdp
-  gssdp_resource_group_set_available (_resource_group, false);
+  if (_resource_group)
+    gssdp_resource_group_set_available (_resource_group, false);
+  g_clear_object (&_resource_group);
+  host_addr = nullptr; // owned by client
+  g_clear_object (&_client);
   // stop http
-  soup_server_disconnect (_server);
+  if (_server)
+    soup_server_disconnect (_server);
+  g_clear_object (&_server);
   return true;
 }
 
@@ -219,6 +224,9 @@ WebServices::start ()
   int ret = 0;
   char *location;
 
+  if (_state == WS_STATE_STARTED)
+    return true; // already started
+
   // create ssdpclient
   _client = gssdp_client_new (nullptr, &error);
   if (error)
@@ -274,9 +282,6 @@ WebServices::start ()
 
   g_free (location);
   return true;
-fail:
-  g_error_free (error);
-  return false;
 }
 
 bool
-- 
2.43.0


From 55fe76e2e07e1b0603a52f12b74dda79d21d0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 41/93] fix: do not abort when both web services ports are busy

---
 lib/WebServices.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index dc0c0a4..e90bf2d 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -255,11 +255,18 @@ WebServices::start ()
     {
       TRACE ("WebServices fail serve at default port %d: %s\n",
              WS_PORT_DEFAULT, error->message);
-      g_error_free (error);
+      g_clear_error (&error);
       // if fail use WS_PORT_DEFAULT + 1
       ret = soup_server_listen_all (_server, WS_PORT_DEFAULT + 1,
                                     SoupServerListenOptions (0), &error);
-      g_assert (ret);
+      if (!ret)
+        {
+          WARNING ("WebServices fail serve at port %d: %s",
+                   WS_PORT_DEFAULT + 1, error->message);
+          g_error_free (error);
+          this->stop ();
+          return false;
+        }
       this->host_port = WS_PORT_DEFAULT + 1;
     }
 
-- 
2.43.0


From 3bc4c3c14048c80276dcc1ad402d7cc39ed8bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 42/93] fix: answer malformed web services requests instead of
 aborting

Requests without a current document, with a short path, with an unknown
key, or whose body is not an object or is nested too deeply ended the
player; every request leaked its JSON reader.
---
 lib/WebServices.cpp | 172 +++++++++++++++++++++++++++-----------------
 1 file changed, 107 insertions(+), 65 deletions(-)

diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index e90bf2d..e9b553a 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -8,6 +8,7 @@
 #include <json/json.h>
 #include <algorithm>
 #include <iostream>
+#include <memory>
 
 #define WS_ADD_ROUTE(ws, r, f)                                             \
   G_STMT_START                                                             \
@@ -99,122 +100,163 @@ cb_locaction (SoupServer *server, SoupMessage *msg, const char *path,
       msg->response_headers, "GingaCC-Server-PairingMethods", "qcode,kex");
 }
 
+/**
+ * @brief Parses the JSON object in request body.
+ * @return \c true if successful, or \c false otherwise (body is not a JSON
+ * object).
+ */
+static bool
+parse_request_body (SoupMessage *msg, Json::Value *root)
+{
+  Json::CharReaderBuilder builder;
+  std::unique_ptr<Json::CharReader> reader (builder.newCharReader ());
+  string errors;
+
+  try
+    {
+      return reader->parse (msg->request_body->data,
+                            msg->request_body->data
+                                + msg->request_body->length,
+                            root, &errors)
+             && root->isObject ();
+    }
+  catch (const Json::Exception &)
+    {
+      return false; // e.g., too deeply nested
+    }
+}
+
+/**
+ * @brief Gets string in JSON object.
+ * @return The string, or the empty string if there is no such string.
+ */
+static string
+get_json_string (const Json::Value &root, const char *name)
+{
+  const Json::Value &value = root[name];
+  return value.isConvertibleTo (Json::stringValue) ? value.asString () : "";
+}
+
+/**
+ * @brief Gets list of strings in JSON object.
+ */
+static list<string>
+get_json_string_list (const Json::Value &root, const char *name)
+{
+  list<string> result;
+  for (const auto &item : root[name])
+    if (item.isString ())
+      result.push_back (item.asString ());
+  return result;
+}
+
 static void
 cb_remoteplayer (SoupServer *server, SoupMessage *msg, const char *path,
                  GHashTable *query, SoupClientContext *client,
                  gpointer user_data)
 {
   Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
   WebServices *ws = (WebServices *) user_data;
   bool status = false;
 
   TRACE_SOUP_REQ_MSG (msg);
 
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
-    WARNING ("Error parsing request body");
+  if (!parse_request_body (msg, &root))
+    {
+      WARNING ("Error parsing request body");
+      soup_message_set_status (msg, SOUP_STATUS_NOT_FOUND);
+      return;
+    }
 
   PlayerRemoteData pdata;
-  pdata.location = root["location"].asString ();
-  pdata.deviceType = root["deviceType"].asString ();
-  for (const auto &item : root["supportedFormats"])
-    pdata.supportedFormats.push_back (item.asString ());
-  for (const auto &item : root["recognizableEvents"])
-    pdata.recognizedableEvents.push_back (item.asString ());
+  pdata.location = get_json_string (root, "location");
+  pdata.deviceType = get_json_string (root, "deviceType");
+  pdata.supportedFormats = get_json_string_list (root, "supportedFormats");
+  pdata.recognizedableEvents
+      = get_json_string_list (root, "recognizableEvents");
   if (pdata.isValid ())
     status = ws->machMediaThenSetPlayerRemote (pdata);
   soup_message_set_status (msg,
                            status ? SOUP_STATUS_OK : SOUP_STATUS_NOT_FOUND);
 }
 
-static void
-cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
-         GHashTable *query, SoupClientContext *client, gpointer user_data)
+static bool
+run_app_request (WebServices *ws, SoupMessage *msg, const char *path)
 {
   Json::Value root;
-  Json::CharReaderBuilder builder;
-  Json::CharReader *reader = builder.newCharReader ();
-  string errors;
-  WebServices *ws = (WebServices *) user_data;
-  bool status = false;
-  string action, interface, value;
+  string action, interface, value, nodeId;
   Object *node;
   Event *evt = nullptr;
   Document *doc;
-  const char *target = path + strlen (WS_ROUTE_APPS);
-  gchar **params = g_strsplit (target, "/", 3);
+  const char *target;
+  gchar **params;
 
   doc = ws->getFormatter ()->getDocument ();
-  g_assert_nonnull (doc);
-  const char *appId = params[0]; // ignored
-  const char *docId = params[1]; // ignored
-  const char *nodeId = params[2];
-  if (!strlen (appId) || !strlen (docId) || !strlen (nodeId))
-    goto fail;
-
-  TRACE ("request %s: app=%s, docId=%s nodeId=%s", WS_ROUTE_APPS, appId,
-         docId, nodeId);
+  if (doc == nullptr)
+    return false; // no current presentation
+
+  if (!g_str_has_prefix (path, WS_ROUTE_APPS))
+    return false;
+
+  target = path + strlen (WS_ROUTE_APPS);
+  params = g_strsplit (target, "/", 3); // appId and docId are ignored
+  if (g_strv_length (params) == 3 && strlen (params[0])
+      && strlen (params[1]))
+    nodeId = params[2];
+  g_strfreev (params);
+  if (nodeId.empty ())
+    return false;
+
+  TRACE ("request %s: target=%s", WS_ROUTE_APPS, target);
   TRACE_SOUP_REQ_MSG (msg);
 
-  if (!reader->parse (msg->request_body->data,
-                      msg->request_body->data + msg->request_body->length,
-                      &root, &errors))
+  if (!parse_request_body (msg, &root))
     {
       WARNING ("Error parsing request body");
-      goto fail;
+      return false;
     }
-  action = root["action"].asString ();
-  interface = root["interface"].asString ();
-  value = root["value"].asString ();
+  action = get_json_string (root, "action");
+  interface = get_json_string (root, "interface");
+  value = get_json_string (root, "value");
 
   node = doc->getObjectById (nodeId);
-  g_strfreev (params);
-
   if (!node)
-    goto fail;
+    return false;
 
   if (action == "select")
     {
       evt = node->getSelectionEvent (value);
+      if (evt == nullptr)
+        return false;
       doc->evalAction (evt, Event::START);
       doc->evalAction (evt, Event::STOP);
     }
-  else if (action == "lookAt")
-    {
-      if (!interface.empty ())
-        evt = node->getLookAtEvent (interface);
-      else
-        evt = node->getLookAtEvent ("@lambda");
-
-      if (evt != nullptr)
-        doc->evalAction (evt, Event::START);
-      else
-        goto fail;
-    }
-  else if (action == "lookAway")
+  else if (action == "lookAt" || action == "lookAway")
     {
       if (!interface.empty ())
         evt = node->getLookAtEvent (interface);
       else
         evt = node->getLookAtEvent ("@lambda");
 
-      if (evt != nullptr)
-        doc->evalAction (evt, Event::STOP);
-      else
-        goto fail;
+      if (evt == nullptr)
+        return false;
+      doc->evalAction (evt, action == "lookAt" ? Event::START
+                                               : Event::STOP);
     }
   else
-    goto fail;
+    return false;
 
-  soup_message_set_status (msg, SOUP_STATUS_OK);
-  return;
+  return true;
+}
 
-fail:
-  soup_message_set_status (msg, SOUP_STATUS_NOT_FOUND);
+static void
+cb_apps (SoupServer *server, SoupMessage *msg, const char *path,
+         GHashTable *query, SoupClientContext *client, gpointer user_data)
+{
+  WebServices *ws = (WebServices *) user_data;
+  bool status = run_app_request (ws, msg, path);
+  soup_message_set_status (msg,
+                           status ? SOUP_STATUS_OK : SOUP_STATUS_NOT_FOUND);
 }
 
 bool
-- 
2.43.0


From 8df2fbf601ece808ed0d6ea2fab1f9e39a29c294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 43/93] fix: list webservices among the options

---
 lib/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Formatter.cpp b/lib/Formatter.cpp
index a0a517c..9a8f483 100644
--- a/lib/Formatter.cpp
+++ b/lib/Formatter.cpp
@@ -64,6 +64,7 @@ static map<string, GingaOptionData> opts_table = {
   OPTS_ENTRY (experimental, G_TYPE_BOOLEAN, Experimental),
   OPTS_ENTRY (height, G_TYPE_INT, Size),
   OPTS_ENTRY (opengl, G_TYPE_BOOLEAN, OpenGL),
+  OPTS_ENTRY (webservices, G_TYPE_BOOLEAN, WebServices),
   OPTS_ENTRY (width, G_TYPE_INT, Size),
 };
 
-- 
2.43.0


From 8b8d8291ebc7f7fccb260cdb831a385b342d3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 44/93] fix: match remote devices against the properties of the
 media

Remote media objects were collected before their properties were parsed,
so no device was ever matched by its type, and registering a device that
matches nothing was announced the media of the previous one.
---
 lib/Document.cpp    | 15 +++++++++------
 lib/Document.h      |  3 +--
 lib/WebServices.cpp | 13 ++++++++-----
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/lib/Document.cpp b/lib/Document.cpp
index 471176e..d3974ee 100644
--- a/lib/Document.cpp
+++ b/lib/Document.cpp
@@ -153,10 +153,6 @@ Document::addObject (Object *obj)
       Media *media = cast (Media *, obj);
       g_assert_nonnull (media);
       _medias.insert (media);
-      if (PlayerRemote::usesPlayerRemote (media))
-        {
-          _mediasRemote.insert (media);
-        }
     }
   else if (instanceof (Context *, obj))
     {
@@ -205,10 +201,17 @@ Document::getMedias ()
   return &_medias;
 }
 
-const set<Media *> *
+set<Media *>
 Document::getMediasRemote ()
 {
-  return &_mediasRemote;
+  set<Media *> result;
+
+  // Properties are set after media is added to document.
+  for (auto media : _medias)
+    if (PlayerRemote::usesPlayerRemote (media))
+      result.insert (media);
+
+  return result;
 }
 
 const set<Context *> *
diff --git a/lib/Document.h b/lib/Document.h
index dd1380f..8a6e809 100644
--- a/lib/Document.h
+++ b/lib/Document.h
@@ -47,7 +47,7 @@ public:
   Context *getRoot ();
   MediaSettings *getSettings ();
   const set<Media *> *getMedias ();
-  const set<Media *> *getMediasRemote ();
+  set<Media *> getMediasRemote ();
   const set<Context *> *getContexts ();
   const set<Switch *> *getSwitches ();
 
@@ -67,7 +67,6 @@ private:
   Context *_root;                     ///< Root context (body).
   MediaSettings *_settings;           ///< Settings object.
   set<Media *> _medias;               ///< Media objects.
-  set<Media *> _mediasRemote;         ///< Media objects.
   set<Context *> _contexts;           ///< Context objects.
   set<Switch *> _switches;            ///< Switch objects.
   UserData _udata;                    ///< Attached user data.
diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index e9b553a..3255aa6 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -340,22 +340,25 @@ WebServices::machMediaThenSetPlayerRemote (PlayerRemoteData &data)
     return false;
 
   auto mrts = _formatter->getDocument ()->getMediasRemote ();
-  if (mrts->empty ())
+  if (mrts.empty ())
     return false;
 
-  for (auto m : *mrts)
+  for (auto m : mrts)
     {
+      bool matched = false;
+
       // match media deviceType then set remotePlayerBaseURL
       if (m->getProperty ("device") == data.deviceType)
-        m->setProperty ("remotePlayerBaseURL", data.location);
+        matched = true;
 
       // match supportedFormats then set remotePlayerBaseURL
       for (auto mime : data.supportedFormats)
         if (m->getProperty ("type") == mime)
-          m->setProperty ("remotePlayerBaseURL", data.location);
+          matched = true;
 
-      if (m->getProperty ("remotePlayerBaseURL") != "")
+      if (matched)
         {
+          m->setProperty ("remotePlayerBaseURL", data.location);
           SoupSession *session;
           SoupMessage *msg;
           char *body;
-- 
2.43.0


From 96ffd812f913b129d0063a9689d3c66381eb888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:42 +0000
Subject: [PATCH 45/93] fix: keep remote players from using what is not there

Requests were created without a base URL, completed on a deleted player,
and their failure was never noticed.
---
 lib/PlayerRemote.cpp | 34 ++++++++++++++++++++++------------
 lib/WebServices.cpp  |  7 ++++++-
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/lib/PlayerRemote.cpp b/lib/PlayerRemote.cpp
index e439962..5480e37 100644
--- a/lib/PlayerRemote.cpp
+++ b/lib/PlayerRemote.cpp
@@ -57,37 +57,47 @@ PlayerRemote::usesPlayerRemote (Media *media)
 
 PlayerRemote::~PlayerRemote ()
 {
-  g_object_unref (_session);
+  g_clear_object (&_session);
 }
 
+// The player may be gone when the request completes.
 static void
-cb_action (SoupSession *session, SoupMessage *msg, gpointer user_data)
+cb_action (unused (SoupSession *session), SoupMessage *msg,
+           gpointer user_data)
 {
-  string url;
-  auto player = (PlayerRemote *) user_data;
-  if (!msg->status_code == SOUP_STATUS_OK)
-    WARNING ("Failed to perform request to %s",
-             player->getProperty ("remotePlayerBaseURL").c_str ());
+  char *url = (char *) user_data;
+  if (msg->status_code != SOUP_STATUS_OK)
+    WARNING ("Failed to perform request to %s", url);
+  g_free (url);
 }
 
 void
 PlayerRemote::sendAction (const string &body, const string &label = "")
 {
-  guint status;
   SoupMessage *msg;
+  string base = getProperty ("remotePlayerBaseURL");
 
-  if (!_session)
-    _session = soup_session_new ();
+  if (base.empty ())
+    return; // no remote device yet
 
   string url = xstrbuild ("%s" REMOTE_PLAYER_ROUTE_NODES "%s",
-                          getProperty ("remotePlayerBaseURL").c_str (),
+                          base.c_str (),
                           (label == "") ? _media->getId ().c_str ()
                                         : label.c_str ());
 
   msg = soup_message_new (SOUP_METHOD_POST, url.c_str ());
+  if (unlikely (!msg))
+    {
+      WARNING ("Bad URL '%s'", url.c_str ());
+      return;
+    }
+
+  if (!_session)
+    _session = soup_session_new ();
   soup_message_set_request (msg, "application/json", SOUP_MEMORY_COPY,
                             body.c_str (), strlen (body.c_str ()));
-  soup_session_queue_message (_session, msg, cb_action, this);
+  soup_session_queue_message (_session, msg, cb_action,
+                              g_strdup (url.c_str ()));
 }
 
 void
diff --git a/lib/WebServices.cpp b/lib/WebServices.cpp
index 3255aa6..b10f274 100644
--- a/lib/WebServices.cpp
+++ b/lib/WebServices.cpp
@@ -363,8 +363,13 @@ WebServices::machMediaThenSetPlayerRemote (PlayerRemoteData &data)
           SoupMessage *msg;
           char *body;
 
-          session = soup_session_new ();
           msg = soup_message_new ("POST", data.location.c_str ());
+          if (unlikely (!msg))
+            {
+              WARNING ("Bad location '%s'", data.location.c_str ());
+              continue;
+            }
+          session = soup_session_new ();
           body
               = g_strdup_printf (REMOTE_PLAYER_JSON_MEDIA, // json format
                                  WS_DEFAULT_APPID,         // appId
-- 
2.43.0


From ef6f1c73ba960f36e83043e981370e599eb5766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 46/93] fix: pass pause and resume on to scripts

Pausing or resuming an NCLua media aborted the player.
---
 lib/PlayerLua.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index 86d4a19..5a322e5 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -106,18 +106,20 @@ PlayerLua::stop ()
   Player::stop ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::pause ()
 {
-  g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert_nonnull (_nw);
+  evt_ncl_send_presentation (_nw, "pause", "");
+  Player::pause ();
 }
 
-void G_GNUC_NORETURN
+void
 PlayerLua::resume ()
 {
-  g_assert (_state != PAUSED && _state != SLEEPING);
-  g_assert_not_reached ();
+  g_assert_nonnull (_nw);
+  evt_ncl_send_presentation (_nw, "resume", "");
+  Player::resume ();
 }
 
 void
-- 
2.43.0


From e70c7a45fcafe995e6917fe1a01ba8eed13cb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 47/93] fix: ignore the events of scripts that name nothing

A script that posted an event about an unknown label or property, or with
an unknown action, aborted the player.
---
 lib/PlayerLua.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index 5a322e5..f640876 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -193,20 +193,22 @@ PlayerLua::redraw (cairo_t *cr)
           else
             nclEvt = _media->getPresentationEventByLabel (label);
 
-          g_assert_nonnull (nclEvt);
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action) != 0);
-          _media->addDelayedAction (
-              nclEvt, nclua_act_to_ncl.at (evt->u.ncl.action));
+          auto it = nclua_act_to_ncl.find (evt->u.ncl.action);
+          if (nclEvt != nullptr && it != nclua_act_to_ncl.end ())
+            _media->addDelayedAction (nclEvt, it->second);
+          else
+            WARNING ("script '%s': bad presentation event '%s' '%s'",
+                     _id.c_str (), evt->u.ncl.action, label.c_str ());
         }
       else if (g_str_equal (evt->u.ncl.type, "attribution"))
         {
           Event *nclEvt = _media->getAttributionEvent (evt->u.ncl.name);
-          g_assert_nonnull (nclEvt);
-
-          g_assert (nclua_act_to_ncl.count (evt->u.ncl.action));
-          _media->addDelayedAction (nclEvt,
-                                    nclua_act_to_ncl.at (evt->u.ncl.action),
-                                    evt->u.ncl.value);
+          auto it = nclua_act_to_ncl.find (evt->u.ncl.action);
+          if (nclEvt != nullptr && it != nclua_act_to_ncl.end ())
+            _media->addDelayedAction (nclEvt, it->second, evt->u.ncl.value);
+          else
+            WARNING ("script '%s': bad attribution event '%s' '%s'",
+                     _id.c_str (), evt->u.ncl.action, evt->u.ncl.name);
         }
       ncluaw_event_free (evt);
     }
-- 
2.43.0


From 9775edaea0a43b0160330786f34bd0bde7094147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 48/93] fix: initialise the errors of scripts

---
 lib/PlayerLua.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerLua.cpp b/lib/PlayerLua.cpp
index f640876..a85ddcf 100644
--- a/lib/PlayerLua.cpp
+++ b/lib/PlayerLua.cpp
@@ -58,11 +58,11 @@ PlayerLua::~PlayerLua ()
 void
 PlayerLua::start ()
 {
-  char *errmsg;
+  char *errmsg = NULL;
 
   g_assert (_state != OCCURRING);
   g_assert_null (_nw);
-  GError *err;
+  GError *err = NULL;
   char *filename = g_filename_from_uri (_prop.uri.c_str (), NULL, &err);
   if (filename == NULL)
     {
-- 
2.43.0


From 257edd28e07606fba8567d0f0e65263c93f910aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 49/93] fix: resolve sources with characters that cannot occur
 in URIs

---
 lib/Parser.cpp | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index a9ab286..731b858 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -72,6 +72,28 @@ xmlGetPropAsString (xmlNode *node, const string &name, string *result)
   return true;
 }
 
+/// Resolves \p src relative to \p base.  The characters of \p src that
+/// cannot occur in URIs are escaped.
+static bool
+resolveSrc (const string &src, const string &base, string *result)
+{
+  static const char *except[] = { ";/?:@&=+$,#%[]", ";/?:@&=+$,#" };
+  xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (base));
+  for (size_t i = 0; s == nullptr && i < G_N_ELEMENTS (except); i++)
+    {
+      xmlChar *esc = xmlURIEscapeStr (toXmlChar (src), BAD_CAST except[i]);
+      if (esc == nullptr)
+        break;
+      s = xmlBuildURI (esc, toXmlChar (base));
+      xmlFree (esc);
+    }
+  if (s == nullptr)
+    return false;
+  tryset (result, toCPPString (s));
+  xmlFree (s);
+  return true;
+}
+
 /// Finds node children by tag.
 static list<xmlNode *>
 xmlFindAllChildren (xmlNode *node, const string &tag)
@@ -4083,14 +4105,15 @@ ParserState::pushMedia (ParserState *st, ParserElt *elt)
           if (src != "")
             {
               // Makes uri based in the main document uri
-              xmlChar *s = xmlBuildURI (toXmlChar (src),
-                                        toXmlChar (st->getURI ()));
-              src = toCPPString (s);
+              if (unlikely (!resolveSrc (src, st->getURI (), &src)))
+                {
+                  return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                                 "not a valid URI");
+                }
               if (!xpathisuri (src))
                 {
                   src = xurifromsrc (src, "");
                 }
-              xmlFree (s);
             }
           if (unlikely (st->_doc->getObjectByIdOrAlias (id) != nullptr))
             {
@@ -4331,9 +4354,11 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
   // fixme:  We should also handle remote URIs; g_file_move could help us.
   if (st->getURI () != "")
     {
-      xmlChar *s = xmlBuildURI (toXmlChar (src), toXmlChar (st->getURI ()));
-      src = toCPPString (s);
-      xmlFree (s);
+      if (unlikely (!resolveSrc (src, st->getURI (), &src)))
+        {
+          return st->errEltBadAttribute (elt->getNode (), "src", src,
+                                         "not a valid URI");
+        }
       gchar *path = g_filename_from_uri (src.c_str (), nullptr, nullptr);
       if (unlikely (path == nullptr))
         {
-- 
2.43.0


From 69f22ccb1fdf5b9423b186103539a9006d2aa0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 50/93] fix: start texts that have no area

---
 lib/PlayerSvg.cpp  | 6 ++++++
 lib/PlayerText.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/PlayerSvg.cpp b/lib/PlayerSvg.cpp
index 50111c1..42ab291 100644
--- a/lib/PlayerSvg.cpp
+++ b/lib/PlayerSvg.cpp
@@ -46,6 +46,12 @@ PlayerSvg::reload ()
 
   g_assert (_state != SLEEPING);
 
+  if (_prop.rect.width <= 0 || _prop.rect.height <= 0)
+    {
+      Player::reload ();
+      return; // nothing to draw
+    }
+
   GFile *file = g_file_new_for_uri (_prop.uri.c_str ());
   svg = rsvg_handle_new_from_gfile_sync (file, RSVG_HANDLE_FLAGS_NONE, NULL,
                                          &err);
diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index b1b170f..8d5757d 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -169,6 +169,12 @@ PlayerText::reload ()
 {
   string text;
 
+  if (Player::_prop.rect.width <= 0 || Player::_prop.rect.height <= 0)
+    {
+      Player::reload ();
+      return; // nothing to draw
+    }
+
   if (unlikely (!xurigetcontents (Player::_prop.uri, text)))
     {
       ERROR ("cannot load text file %s", Player::_prop.uri.c_str ());
-- 
2.43.0


From 9894fea9c4d5b6b6e92e011b89b4baf3fdad5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 51/93] fix: initialise the background colour of texts

---
 lib/PlayerText.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index 8d5757d..e9c1194 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -154,7 +154,7 @@ PlayerText::PlayerText (Formatter *formatter, Media *media)
 {
   // Initialize handled properties.
   static set<string> handled = {
-    "fontColor",   "bgColor",    "fontFamily", "fontSize",  "fontStyle",
+    "fontColor",   "fontBgColor", "fontFamily", "fontSize",  "fontStyle",
     "fontVariant", "fontWeight", "horzAlign",  "vertAlign",
   };
   this->resetProperties (&handled);
-- 
2.43.0


From 14fcd8ed321cfaad3420bafde4e15d5d49a5c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 52/93] fix: lay out texts anew when an animation resizes them

---
 lib/Player.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Player.cpp b/lib/Player.cpp
index a46183b..adc087c 100644
--- a/lib/Player.cpp
+++ b/lib/Player.cpp
@@ -372,7 +372,11 @@ void
 Player::redraw (cairo_t *cr)
 {
   g_assert (_state != SLEEPING);
+  int width = _prop.rect.width;
+  int height = _prop.rect.height;
   _animator->update (&_prop.rect, &_prop.bgColor, &_prop.alpha, &_crop);
+  if (_prop.rect.width != width || _prop.rect.height != height)
+    _dirty = true;
 
   if (!_prop.visible || !(_prop.rect.width > 0 && _prop.rect.height > 0))
     {
-- 
2.43.0


From 8315b565ba4998d72ed28e997170daaaf6c59dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 53/93] fix: do not leak the file objects of images

---
 lib/PlayerImage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PlayerImage.cpp b/lib/PlayerImage.cpp
index 5f5b88e..e261a12 100644
--- a/lib/PlayerImage.cpp
+++ b/lib/PlayerImage.cpp
@@ -39,6 +39,7 @@ cairox_surface_create_from_uri (const char *path, cairo_surface_t **dup)
   g_assert_nonnull (file);
 
   GFileInputStream *input = g_file_read (file, NULL, &error);
+  g_object_unref (file);
   g_assert_nonnull (input);
   if (input)
     {
-- 
2.43.0


From 642a0d49c4c100f2134f5ea36d4294832a902f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 54/93] fix: do not drop a reference the message of a video
 owns

---
 lib/PlayerVideo.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 82e7bf8..771859c 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -462,7 +462,6 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
             _WARNING ("%s", error->message);
           }
         g_error_free (error);
-        gst_object_unref (obj);
         break;
       }
     default:
-- 
2.43.0


From b25556154c67bbb7e29e7458064b1c9b6ee408dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 55/93] fix: remove the bus watch of a video with its player

---
 lib/PlayerVideo.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 771859c..b57a15a 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -159,6 +159,12 @@ PlayerVideo::~PlayerVideo ()
 {
   _TRACE ("");
   gstx_element_set_state_sync (_playbin, GST_STATE_NULL);
+
+  GstBus *bus = gst_pipeline_get_bus (GST_PIPELINE (_playbin));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
+
   gst_object_unref (_playbin);
 }
 
-- 
2.43.0


From 7cb03b5b3652a4fae2ca699cbe8812bd4eba974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 56/93] fix: do not free the event that sets the speed of a
 video twice

---
 lib/PlayerVideo.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index b57a15a..6f4b685 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -257,7 +257,6 @@ PlayerVideo::speed (double value)
     }
   if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
     TRACE ("speed failed");
-  gst_event_unref (seek_event);
 }
 
 void
-- 
2.43.0


From 62bd7a9b993df74a3a25061ed5e6e575e1a7c8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 57/93] fix: do not use positions and durations of videos that
 are not known

---
 lib/PlayerVideo.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 6f4b685..7a018c6 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -322,20 +322,26 @@ PlayerVideo::getPipelineTime ()
 gint64
 PlayerVideo::getStreamMediaTime ()
 {
-  gint64 cur;
+  gint64 cur = 0;
   if (unlikely (
           !gst_element_query_position (_playbin, GST_FORMAT_TIME, &cur)))
-    TRACE ("Get %s time failed", _id.c_str ());
+    {
+      TRACE ("Get %s time failed", _id.c_str ());
+      return 0;
+    }
   return cur;
 }
 
 gint64
 PlayerVideo::getStreamMediaDuration ()
 {
-  gint64 dur;
+  gint64 dur = (gint64) GST_CLOCK_TIME_NONE;
   if (unlikely (
           !gst_element_query_duration (_playbin, GST_FORMAT_TIME, &dur)))
-    TRACE ("Get %s duration failed", _id.c_str ());
+    {
+      TRACE ("Get %s duration failed", _id.c_str ());
+      return (gint64) GST_CLOCK_TIME_NONE;
+    }
   return dur;
 }
 gboolean
@@ -562,7 +568,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             next = (gint64) (t);
             if (xstrhasprefix (value, "+"))
               {
-                if (next + cur >= dur)
+                if (dur >= 0 && next + cur >= dur)
                   setEOS (true);
 
                 next += cur;
-- 
2.43.0


From 74dde015f41abe80983be6f290c92cbf5ca2cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:15 +0000
Subject: [PATCH 58/93] fix: seek videos backwards

---
 lib/PlayerVideo.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 7a018c6..b184769 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -564,7 +564,11 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
             TRACE ("time: %" GST_TIME_FORMAT " / %" GST_TIME_FORMAT,
                    GST_TIME_ARGS (cur), GST_TIME_ARGS (dur));
 
-            try_parse_time (value, &t);
+            if (unlikely (!try_parse_time (xstrhasprefix (value, "-")
+                                               ? value.substr (1)
+                                               : value,
+                                           &t)))
+              return false;
             next = (gint64) (t);
             if (xstrhasprefix (value, "+"))
               {
@@ -575,7 +579,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
               }
             else if (xstrhasprefix (value, "-"))
               {
-                next = (next - cur < 0) ? 0 : next - cur;
+                next = (cur - next < 0) ? 0 : cur - next;
               }
             seek (next);
           }
-- 
2.43.0


From 0293dde0ace049eee97639926a24f301492cc4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 59/93] fix: set the time and speed of videos that were not
 ready for it

---
 lib/PlayerVideo.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index b184769..e44e02b 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -449,6 +449,9 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
                             gst_element_state_get_name (old_state),
                             gst_element_state_get_name (new_state));
           }
+
+        if (new_state == GST_STATE_PAUSED || new_state == GST_STATE_PLAYING)
+          player->doStackedActions ();
         break;
       }
     case GST_MESSAGE_ERROR:
@@ -628,14 +631,12 @@ PlayerVideo::stackAction (Property code, unused (const string &name),
 void
 PlayerVideo::doStackedActions ()
 {
-  while (!_stack_actions.empty ())
-    {
-      PlayerVideoAction act;
-      act = _stack_actions.front ();
-      _stack_actions.pop_front ();
+  list<PlayerVideoAction> actions;
 
-      this->doSetProperty (act.code, act.name, act.value);
-    }
+  // Those that still cannot be done are stacked again.
+  actions.swap (_stack_actions);
+  for (auto &act : actions)
+    this->doSetProperty (act.code, act.name, act.value);
 }
 
 bool
-- 
2.43.0


From b6597a87ce6184ed3e62c3248f2cf76a93272104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 60/93] fix: end videos with their stream

---
 lib/PlayerVideo.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index e44e02b..891e314 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -95,6 +95,14 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
 
   _TRACE ("");
 
+  _prop.mute = false;
+  _prop.balance = 0.;
+  _prop.volume = 1.;
+  _prop.treble = 0.;
+  _prop.bass = 0.;
+  _prop.freeze = false;
+  _prop.speed = 1.;
+
   // Initialize GStreamer.
   if (!gst_is_initialized ())
     {
@@ -410,7 +418,8 @@ PlayerVideo::cb_Bus (GstBus *bus, GstMessage *msg, PlayerVideo *player)
     case GST_MESSAGE_EOS:
       {
         _TRACE_MESSAGE (msg, "");
-        // player->stop (); // set eos or use player state to signal eos
+        if (!player->getFreeze ())
+          player->setEOS (true);
         break;
       }
     case GST_MESSAGE_NEW_CLOCK:
-- 
2.43.0


From b0543561ce4c5f43e2ccbc6d2f00646cae73a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 61/93] fix: seek videos that are played backwards or were
 given speed zero

---
 lib/PlayerVideo.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 891e314..4306675 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -225,10 +225,17 @@ PlayerVideo::seek (gint64 value)
   GstState curr, pending;
   GstStateChangeReturn ret;
 
-  if (unlikely (!gst_element_seek (_playbin, _prop.speed, GST_FORMAT_TIME,
-                                   GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET,
-                                   value, GST_SEEK_TYPE_NONE,
-                                   (gint64) GST_CLOCK_TIME_NONE)))
+  gboolean done;
+  if (_prop.speed > 0)
+    done = gst_element_seek (_playbin, _prop.speed, GST_FORMAT_TIME,
+                             GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, value,
+                             GST_SEEK_TYPE_NONE,
+                             (gint64) GST_CLOCK_TIME_NONE);
+  else
+    done = gst_element_seek (_playbin, _prop.speed, GST_FORMAT_TIME,
+                             GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, 0,
+                             GST_SEEK_TYPE_SET, value);
+  if (unlikely (!done))
     TRACE ("seek failed");
 
   ret = gst_element_get_state (_playbin, &curr, &pending,
@@ -261,7 +268,7 @@ PlayerVideo::speed (double value)
     {
       seek_event = gst_event_new_seek (
           value, GST_FORMAT_TIME, GST_SEEK_FLAG_FLUSH, GST_SEEK_TYPE_SET, 0,
-          GST_SEEK_TYPE_NONE, position);
+          GST_SEEK_TYPE_SET, position);
     }
   if (unlikely (!gst_element_send_event (_video.sink, seek_event)))
     TRACE ("speed failed");
@@ -547,7 +554,10 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
 
         if (_state != SLEEPING)
           {
-            _prop.speed = xstrtod (value);
+            double rate = xstrtod (value);
+            if (doubleeq (rate, 0.))
+              break; // not a speed
+            _prop.speed = rate;
             speed (_prop.speed);
           }
         break;
-- 
2.43.0


From bb25d0239ec14b72aa1f3a40b8ef75f27defdb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 62/93] fix: show the current picture of a video

---
 lib/PlayerVideo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 4306675..853e019 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -148,6 +148,7 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
 
   _video.sink = gst_element_factory_make ("appsink", "video.sink");
   g_assert_nonnull (_video.sink);
+  g_object_set (_video.sink, "max-buffers", 1, "drop", TRUE, nullptr);
 
   g_assert (gst_bin_add (GST_BIN (_video.bin), _video.caps));
   g_assert (gst_bin_add (GST_BIN (_video.bin), _video.sink));
-- 
2.43.0


From 7a12a5a3d8a39d21f07fff586e02d555f19bb05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 63/93] fix: give videos the audio elements their properties
 are for

---
 lib/PlayerVideo.cpp | 59 ++++++++++++++++++++++++++++++++++++++++-----
 lib/PlayerVideo.h   |  2 --
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/lib/PlayerVideo.cpp b/lib/PlayerVideo.cpp
index 853e019..058278b 100644
--- a/lib/PlayerVideo.cpp
+++ b/lib/PlayerVideo.cpp
@@ -162,6 +162,50 @@ PlayerVideo::PlayerVideo (Formatter *formatter, Media *media)
   gst_object_unref (pad);
 
   g_object_set (G_OBJECT (_playbin), "video-sink", _video.bin, nullptr);
+
+  // Setup the audio processing bin, if there are elements for it.
+  _audio.bin = nullptr;
+  _audio.pan = gst_element_factory_make ("audiopanorama", "audio.pan");
+  _audio.equalizer
+      = gst_element_factory_make ("equalizer-3bands", "audio.equalizer");
+  _audio.convert = gst_element_factory_make ("audioconvert", "audio.convert");
+  if (_audio.pan != nullptr && _audio.equalizer != nullptr
+      && _audio.convert != nullptr)
+    {
+      _audio.bin = gst_bin_new ("audio.bin");
+      g_assert_nonnull (_audio.bin);
+      g_assert (gst_bin_add (GST_BIN (_audio.bin), _audio.pan));
+      g_assert (gst_bin_add (GST_BIN (_audio.bin), _audio.equalizer));
+      g_assert (gst_bin_add (GST_BIN (_audio.bin), _audio.convert));
+      g_assert (gst_element_link_many (_audio.pan, _audio.equalizer,
+                                       _audio.convert, nullptr));
+
+      pad = gst_element_get_static_pad (_audio.pan, "sink");
+      g_assert_nonnull (pad);
+      g_assert (gst_element_add_pad (_audio.bin,
+                                     gst_ghost_pad_new ("sink", pad)));
+      gst_object_unref (pad);
+
+      pad = gst_element_get_static_pad (_audio.convert, "src");
+      g_assert_nonnull (pad);
+      g_assert (gst_element_add_pad (_audio.bin,
+                                     gst_ghost_pad_new ("src", pad)));
+      gst_object_unref (pad);
+
+      g_object_set (G_OBJECT (_playbin), "audio-filter", _audio.bin,
+                    nullptr);
+    }
+  else
+    {
+      WARNING ("no elements for balance, bass and treble");
+      for (GstElement **elt :
+           { &_audio.pan, &_audio.equalizer, &_audio.convert })
+        if (*elt != nullptr)
+          {
+            gst_object_unref (*elt);
+            *elt = nullptr;
+          }
+    }
 }
 
 PlayerVideo::~PlayerVideo ()
@@ -524,13 +568,15 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_BALANCE:
       {
         _prop.balance = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.pan, "panorama", _prop.balance, nullptr);
+        if (_audio.pan != nullptr)
+          g_object_set (_audio.pan, "panorama", _prop.balance, nullptr);
         break;
       }
     case PROP_BASS:
       {
         _prop.bass = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.equalizer, "band0", _prop.bass, nullptr);
+        if (_audio.equalizer != nullptr)
+          g_object_set (_audio.equalizer, "band0", _prop.bass, nullptr);
         break;
       }
     case PROP_FREEZE:
@@ -541,7 +587,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_MUTE:
       {
         _prop.mute = ginga::parse_bool (value);
-        g_object_set (_audio.volume, "mute", _prop.mute, nullptr);
+        g_object_set (_playbin, "mute", _prop.mute, nullptr);
         break;
       }
     case PROP_SPEED:
@@ -611,8 +657,9 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_TREBLE:
       {
         _prop.treble = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.equalizer, "band1", _prop.treble, "band2",
-                      _prop.treble, nullptr);
+        if (_audio.equalizer != nullptr)
+          g_object_set (_audio.equalizer, "band1", _prop.treble, "band2",
+                        _prop.treble, nullptr);
         break;
       }
     case PROP_URI:
@@ -625,7 +672,7 @@ PlayerVideo::doSetProperty (Property code, unused (const string &name),
     case PROP_VOLUME:
       {
         _prop.volume = xstrtodorpercent (value, nullptr);
-        g_object_set (_audio.volume, "volume", _prop.volume, nullptr);
+        g_object_set (_playbin, "volume", _prop.volume, nullptr);
         break;
       }
     default:
diff --git a/lib/PlayerVideo.h b/lib/PlayerVideo.h
index 7e1a6a6..be491fd 100644
--- a/lib/PlayerVideo.h
+++ b/lib/PlayerVideo.h
@@ -51,11 +51,9 @@ private:
   struct
   {                        // audio pipeline
     GstElement *bin;       // audio bin
-    GstElement *volume;    // volume filter
     GstElement *pan;       // balance filter
     GstElement *equalizer; // equalizer filter
     GstElement *convert;   // convert audio format
-    GstElement *sink;      // audio sink
   } _audio;
   struct
   {                   // video pipeline
-- 
2.43.0


From aaa333f42003692def91774dfbc98e410a20b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 64/93] fix: free the pipeline of a tone with its player

---
 lib/PlayerSigGen.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index bb1c3c3..765019e 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -178,25 +178,31 @@ PlayerSigGen::PlayerSigGen (Formatter *formatter, Media *media)
 
 PlayerSigGen::~PlayerSigGen ()
 {
+  GstBus *bus;
+
+  gst_element_set_state (_pipeline, GST_STATE_NULL);
+
+  gst_element_release_request_pad (_audio.tee, _audio.teeAudioPad);
+  gst_object_unref (_audio.teeAudioPad);
+  gst_element_release_request_pad (_audio.tee, _audio.teeVideoPad);
+  gst_object_unref (_audio.teeVideoPad);
+
+  bus = gst_pipeline_get_bus (GST_PIPELINE (_pipeline));
+  g_assert_nonnull (bus);
+  gst_bus_remove_watch (bus);
+  gst_object_unref (bus);
+
+  gst_object_unref (_pipeline);
 }
 
 void
 PlayerSigGen::start ()
 {
-  GstCaps *caps;
-  GstStructure *st;
   GstStateChangeReturn ret;
 
   g_assert (_state != OCCURRING);
   TRACE ("starting");
 
-  st = gst_structure_new_empty ("audio/x-raw");
-  gst_structure_set (st, "format", G_TYPE_STRING, "BGRA", nullptr);
-
-  caps = gst_caps_new_full (st, nullptr);
-  g_assert_nonnull (caps);
-
-  Player::setEOS (false);
   g_atomic_int_set (&_sample_flag, 0);
 
   // Initialize properties.
@@ -218,7 +224,6 @@ PlayerSigGen::stop ()
   TRACE ("stopping");
 
   gstx_element_set_state_sync (_pipeline, GST_STATE_NULL);
-  gst_object_unref (_pipeline);
   Player::stop ();
 }
 
-- 
2.43.0


From d5bb9f819dbff32d4d7e076ae1d1cf3490f45c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 65/93] fix: end tones that cannot be played

---
 lib/PlayerSigGen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index 765019e..acf5e27 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -210,10 +210,10 @@ PlayerSigGen::start ()
                 "volume", _prop.volume, nullptr);
 
   ret = gst_element_set_state (_pipeline, GST_STATE_PLAYING);
-  if (unlikely (ret == GST_STATE_CHANGE_FAILURE))
-    Player::setEOS (true);
 
   Player::start ();
+  if (unlikely (ret == GST_STATE_CHANGE_FAILURE))
+    Player::setEOS (true);
   TRACE ("started");
 }
 
-- 
2.43.0


From 11f268c1a9bf95c3d0e6874478a1dc22af10beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 66/93] fix: start videos at anchors that begin within a second

---
 lib/Media.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Media.cpp b/lib/Media.cpp
index 7d63e25..6eabc20 100644
--- a/lib/Media.cpp
+++ b/lib/Media.cpp
@@ -218,8 +218,10 @@ Media::beforeTransition (Event *evt, Event::Transition transition)
                     if (begin == GINGA_TIME_NONE)
                       begin = 0;
 
-                    string time_seek = xstrbuild ("%" G_GUINT64_FORMAT,
-                                                  begin / GINGA_SECOND);
+                    string time_seek = xstrbuild ("%" G_GUINT64_FORMAT
+                                                  ".%09" G_GUINT64_FORMAT,
+                                                  begin / GINGA_SECOND,
+                                                  begin % GINGA_SECOND);
                     TRACE ("time_seek %ss", time_seek.c_str ());
                     _player->setProperty ("time", time_seek);
 
-- 
2.43.0


From 38200d42046d4dbda017bd0921ac2abf9eeeee43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 67/93] fix: pause tones that cannot be played

A tone that could not be started ends at the next tick.  If it was paused
before that, its player aborted, since the pipeline cannot be paused either.
---
 lib/PlayerSigGen.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/PlayerSigGen.cpp b/lib/PlayerSigGen.cpp
index acf5e27..b12b88e 100644
--- a/lib/PlayerSigGen.cpp
+++ b/lib/PlayerSigGen.cpp
@@ -233,7 +233,11 @@ PlayerSigGen::pause ()
   g_assert (_state != PAUSED && _state != SLEEPING);
   TRACE ("pausing");
 
-  gstx_element_set_state_sync (_pipeline, GST_STATE_PAUSED);
+  if (gst_element_set_state (_pipeline, GST_STATE_PAUSED)
+      != GST_STATE_CHANGE_FAILURE)
+    gstx_element_get_state_sync (_pipeline, nullptr, nullptr);
+  else
+    Player::setEOS (true);
   Player::pause ();
 }
 
@@ -243,7 +247,11 @@ PlayerSigGen::resume ()
   g_assert (_state == PAUSED);
   TRACE ("resuming");
 
-  gstx_element_set_state_sync (_pipeline, GST_STATE_PLAYING);
+  if (gst_element_set_state (_pipeline, GST_STATE_PLAYING)
+      != GST_STATE_CHANGE_FAILURE)
+    gstx_element_get_state_sync (_pipeline, nullptr, nullptr);
+  else
+    Player::setEOS (true);
   Player::resume ();
 }
 
-- 
2.43.0


From 05e63da09bfde40e31ed9e3f2ee7ca19676c4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 68/93] fix: number the regions of each document afresh

The counter that gives regions their zOrder was shared by all documents
parsed by the process, so that the stacking of the same document changed
from one presentation to the next.
---
 lib/Parser.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index 731b858..d208062 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -285,6 +285,9 @@ private:
   ///< Rectangle stack for solving region hierarchy.
   list<Rect> _rectStack;
 
+  /// The zOrder of the next region.
+  int _lastZOrder;
+
   ///< Reference map for solving the refer attribute in \<media\>.
   map<string, Media *> _referMap;
 
@@ -2342,6 +2345,7 @@ ParserState::ParserState (int width, int height)
   g_assert_cmpint (width, >, 0);
   g_assert_cmpint (height, >, 0);
   _genid = 0;
+  _lastZOrder = 0;
   _error = ParserState::ERROR_NONE;
   _errorMsg = "no error";
   this->rectStackPush ({ 0, 0, width, height });
@@ -2993,7 +2997,6 @@ ParserState::popNcl (ParserState *st, unused (ParserElt *elt))
 bool
 ParserState::pushRegion (ParserState *st, ParserElt *elt)
 {
-  static int last_zorder = 0;
   xmlNode *parent_node;
   Rect screen;
   Rect parent;
@@ -3039,7 +3042,7 @@ ParserState::pushRegion (ParserState *st, ParserElt *elt)
   double width = ((double) rect.width / screen.width) * 100.;
   double height = ((double) rect.height / screen.height) * 100.;
 
-  elt->setAttribute ("zOrder", xstrbuild ("%d", last_zorder++));
+  elt->setAttribute ("zOrder", xstrbuild ("%d", st->_lastZOrder++));
   elt->setAttribute ("left", xstrbuild ("%g%%", left));
   elt->setAttribute ("top", xstrbuild ("%g%%", top));
   elt->setAttribute ("width", xstrbuild ("%g%%", width));
-- 
2.43.0


From bd3b8db21f65f96d840dd2434f73dc6a87264315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:12 +0000
Subject: [PATCH 69/93] fix: show the texts of a document in the fonts it
 brings

Once a text had been shown in the process, Pango no longer saw the fonts
added to Fontconfig, so that the fonts of any later document were ignored.
---
 lib/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index d208062..c5e76d8 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -30,6 +30,7 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 #include <libxml/parser.h>
 #include <fontconfig/fontconfig.h>
 #include <libxml/uri.h>
+#include <pango/pangocairo.h>
 
 namespace ginga {
 
@@ -4409,6 +4410,11 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
       FcPatternRemove (font, FC_POSTSCRIPT_NAME, 0);
 
       //      FcPatternPrint (new_font);
+
+      // Pango only sees the fonts that were there when its font map was
+      // created: drop the map so that a new one, with the new font, is
+      // created on demand.
+      pango_cairo_font_map_set_default (nullptr);
     }
 
   if (unlikely (fontAddStatus != FcTrue))
-- 
2.43.0


From 1ccfd1923a93bc2547ffc83c24998bcd861c9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:03 +0000
Subject: [PATCH 70/93] fix: forget the fonts of earlier documents

A font brought by a document stayed in use for the documents started
after it in the same process, where it also won over fonts of the same
family that these bring.
---
 lib/Parser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Parser.cpp b/lib/Parser.cpp
index c5e76d8..53476fc 100644
--- a/lib/Parser.cpp
+++ b/lib/Parser.cpp
@@ -4431,6 +4431,15 @@ ParserState::pushFont (ParserState *st, ParserElt *elt)
 static Document *
 process (xmlDoc *xml, int width, int height, string *errmsg)
 {
+  // Forget the fonts of previous documents.
+  FcFontSet *fontSet
+      = FcConfigGetFonts (FcConfigGetCurrent (), FcSetApplication);
+  if (fontSet != nullptr && fontSet->nfont > 0)
+    {
+      FcConfigAppFontClear (nullptr);
+      pango_cairo_font_map_set_default (nullptr);
+    }
+
   ParserState st (width, height);
   Document *doc;
 
-- 
2.43.0


From 9b5e33fcc911f6238955b9de2c292beb2bb5ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 71/93] fix: accept the default fontVariant

Setting the fontVariant of a text to normal aborted the player.
---
 lib/PlayerText.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index e9c1194..4ff56ed 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -236,7 +236,8 @@ PlayerText::doSetProperty (Property code, unused (const string &name),
       _dirty = true;
       break;
     case PROP_FONT_VARIANT:
-      if (unlikely (value != "" && value != "small-caps"))
+      if (unlikely (value != "" && value != "normal"
+                    && value != "small-caps"))
         return false;
       _prop.fontVariant = value;
       _dirty = true;
-- 
2.43.0


From e0fd7fab81cf271d2adfded2927b753bb11129c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 72/93] fix: show texts in their fontVariant

The property was accepted but had no effect.
---
 lib/PlayerText.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/PlayerText.cpp b/lib/PlayerText.cpp
index 4ff56ed..3723c30 100644
--- a/lib/PlayerText.cpp
+++ b/lib/PlayerText.cpp
@@ -188,9 +188,10 @@ PlayerText::reload ()
     }
 
   _surface = PlayerText::renderSurface (
-      text, _prop.fontFamily, _prop.fontWeight, _prop.fontStyle,
-      _prop.fontSize, _prop.fontColor, _prop.fontBgColor,
-      Player::_prop.rect, _prop.horzAlign, _prop.vertAlign, true, nullptr);
+      text, _prop.fontFamily, _prop.fontWeight,
+      _prop.fontStyle + " " + _prop.fontVariant, _prop.fontSize,
+      _prop.fontColor, _prop.fontBgColor, Player::_prop.rect,
+      _prop.horzAlign, _prop.vertAlign, true, nullptr);
 
   g_assert_nonnull (_surface);
 
-- 
2.43.0


From a626b6fb5dc499f6ad205562eeaceddc0949ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 73/93] fix: pass on presses as presses

The player told the engine of a press when a key was released and the
other way round.
---
 src/ginga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index 0c9bb5c..f079207 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -255,7 +255,7 @@ keyboard_callback (GtkWidget *widget, GdkEventKey *e, gpointer type)
     }
 
   bool status = GINGA->sendKey (
-      string (key), g_str_equal ((const char *) type, "press") == 0);
+      string (key), g_str_equal ((const char *) type, "press"));
 
   if (free_key)
     g_free (deconst (char *, key));
-- 
2.43.0


From 5205c966c3c92c526ad727eaa943a217257ae26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 74/93] fix: give frames to every file of the command line

The tick callback was removed at the end of the first presentation, so
that the following ones never got a tick.
---
 src/ginga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index f079207..964ed2a 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -301,7 +301,7 @@ tick_callback (GtkWidget *widget)
     {
       g_assert (GINGA->getState () == GINGA_STATE_STOPPED);
       gtk_main_quit (); // all done
-      return G_SOURCE_REMOVE;
+      return G_SOURCE_CONTINUE; // there may be another file to present
     }
 
   last = time;
-- 
2.43.0


From 7ec0b9efb14e773c009944996649b00d6e36fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 75/93] fix: count the time of each file from its first frame

The time base was set when the frame counter was zero.  It was thus not
set at all if the first frame had another number, and the second and
following files of the command line also counted the time it had taken
to load them.
---
 src/ginga.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index 964ed2a..c208263 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -34,6 +34,9 @@ using namespace ::std;
 // Global formatter.
 static Ginga *GINGA = nullptr;
 
+// Whether the next frame is the first of a presentation.
+static gboolean first_frame = TRUE;
+
 // Options.
 #define OPTION_LINE "FILE..."
 #define OPTION_DESC                                                        \
@@ -291,10 +294,11 @@ tick_callback (GtkWidget *widget)
   frame++;
 #endif
 
-  if (frame == 0)
+  if (first_frame)
     {
       first = time;
       last = time;
+      first_frame = FALSE;
     }
 
   if (!GINGA->sendTick (time - first, time - last, frame))
@@ -432,6 +436,7 @@ main (int argc, char **argv)
           fail_count++;
           continue;
         }
+      first_frame = TRUE;
       gtk_widget_show_all (app);
       gtk_main ();
       GINGA->stop ();
-- 
2.43.0


From eed8cc8452d082d2391d965957e617c03d2d9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 76/93] fix: ignore keys without a symbol in the player

gdk_keyval_name() returns NULL for them.
---
 src/ginga.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index c208263..facb87e 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -249,6 +249,8 @@ keyboard_callback (GtkWidget *widget, GdkEventKey *e, gpointer type)
       break;
     default:
       key = gdk_keyval_name (e->keyval);
+      if (key == NULL) // no symbol
+        return FALSE;
       if (strlen (key) > 1)
         {
           key = g_utf8_strup (key, -1);
-- 
2.43.0


From 925032d965e962e92f0870c27827c174e5462e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 77/93] fix: refuse negative window sizes

They became zero, and the engine aborted.
---
 src/ginga.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index facb87e..4b2acf2 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -70,17 +70,17 @@ opt_size_cb (unused (const gchar *opt), const gchar *arg,
   gchar *end;
 
   width = g_ascii_strtoll (arg, &end, 10);
-  if (width == 0)
+  if (width <= 0)
     goto syntax_error;
-  opt_width = (gint) (CLAMP (width, 0, G_MAXINT));
+  opt_width = (gint) (CLAMP (width, 1, G_MAXINT));
 
   if (*end != 'x')
     goto syntax_error;
 
   height = g_ascii_strtoll (++end, NULL, 10);
-  if (height == 0)
+  if (height <= 0)
     goto syntax_error;
-  opt_height = (gint) (CLAMP (height, 0, G_MAXINT));
+  opt_height = (gint) (CLAMP (height, 1, G_MAXINT));
 
   return TRUE;
 
-- 
2.43.0


From 26903822843e5146bedb2992e92134d13df13fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 78/93] fix: do not stop the engine from within signal handlers

The handler freed the document that was in use.
---
 src/ginga.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ginga.cpp b/src/ginga.cpp
index 4b2acf2..ed730fc 100644
--- a/src/ginga.cpp
+++ b/src/ginga.cpp
@@ -16,6 +16,7 @@ You should have received a copy of the GNU General Public License
 along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 
 #include "config.h"
+#include <signal.h>
 #include <stdio.h>
 #include <string.h>
 
@@ -34,6 +35,9 @@ using namespace ::std;
 // Global formatter.
 static Ginga *GINGA = nullptr;
 
+// Whether the program was told to terminate.
+static volatile sig_atomic_t terminated = 0;
+
 // Whether the next frame is the first of a presentation.
 static gboolean first_frame = TRUE;
 
@@ -303,6 +307,12 @@ tick_callback (GtkWidget *widget)
       first_frame = FALSE;
     }
 
+  if (terminated)
+    {
+      terminated = 0;
+      GINGA->stop ();
+    }
+
   if (!GINGA->sendTick (time - first, time - last, frame))
     {
       g_assert (GINGA->getState () == GINGA_STATE_STOPPED);
@@ -421,7 +431,7 @@ main (int argc, char **argv)
   int fail_count = 0;
 
   // add abort/ctrl+C handler
-  auto gingaStopFunc = [] (int signum) { GINGA->stop (); };
+  auto gingaStopFunc = [] (unused (int signum)) { terminated = 1; };
   signal (SIGABRT, gingaStopFunc);
   signal (SIGTERM, gingaStopFunc);
 
@@ -442,6 +452,7 @@ main (int argc, char **argv)
       gtk_widget_show_all (app);
       gtk_main ();
       GINGA->stop ();
+      terminated = 0;
     }
 
 // Done.
-- 
2.43.0


From a88fb997aa87858b86db9f4574122821d5d809ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:46 +0000
Subject: [PATCH 79/93] fix: count the time of a presentation from its first
 frame

The time that passed before the presentation began was counted as part
of it.
---
 src/gingagui/Draw.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/gingagui/Draw.cpp b/src/gingagui/Draw.cpp
index 315fd53..4788b77 100644
--- a/src/gingagui/Draw.cpp
+++ b/src/gingagui/Draw.cpp
@@ -28,13 +28,17 @@ gboolean
 update_draw_callback (GtkWidget *widget)
 #endif
 {
-  if (GINGA->getState () == GINGA_STATE_STOPPED)
-    goto queue_draw;
-
   guint64 time;
   static guint64 frame = (guint64) -1;
   static guint64 last;
   static guint64 first;
+  static gboolean playing = FALSE;
+
+  if (GINGA->getState () == GINGA_STATE_STOPPED)
+    {
+      playing = FALSE;
+      goto queue_draw;
+    }
 
 #if GTK_CHECK_VERSION(3, 8, 0)
   time = (guint64) (gdk_frame_clock_get_frame_time (frame_clock) * 1000);
@@ -44,10 +48,11 @@ update_draw_callback (GtkWidget *widget)
   frame++;
 #endif
 
-  if (frame == 0)
+  if (!playing) // first frame of the presentation
     {
       first = time;
       last = time;
+      playing = TRUE;
     }
 
   if (!GINGA->sendTick (time - first, time - last, frame))
-- 
2.43.0


From b70be45aafa0fcfe2ff177bb95b4aa41d63a3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:55 +0000
Subject: [PATCH 80/93] fix: GUI: keep the settings that are not in the
 settings file

---
 src/gingagui/SaveLoadSettings.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/gingagui/SaveLoadSettings.cpp b/src/gingagui/SaveLoadSettings.cpp
index eb90ce2..c24c9ad 100644
--- a/src/gingagui/SaveLoadSettings.cpp
+++ b/src/gingagui/SaveLoadSettings.cpp
@@ -60,6 +60,16 @@ save_settings (void)
   g_free (file_path);
 }
 
+// A setting that is not in the file keeps its value.
+static void
+load_number (GKeyFile *key_file, const gchar *key, guint *number)
+{
+  gchar *value = g_key_file_get_value (key_file, "ginga-gui", key, NULL);
+  if (value != NULL)
+    *number = (guint) atoi (value);
+  g_free (value);
+}
+
 void
 load_settings (void)
 {
@@ -73,18 +83,17 @@ load_settings (void)
                                   &error))
     goto endload;
 
-  gingaID
-      = g_key_file_get_value (key_file, "ginga-gui", "ginga-ID", &error);
+  gchar *value;
+  value = g_key_file_get_value (key_file, "ginga-gui", "ginga-ID", NULL);
+  if (value != NULL)
+    gingaID = value;
 
-  presentationAttributes.aspectRatio = atoi (
-      g_key_file_get_value (key_file, "ginga-gui", "aspect-ratio", &error));
-  presentationAttributes.frameRate = atoi (
-      g_key_file_get_value (key_file, "ginga-gui", "frame-rate", &error));
-  presentationAttributes.guiTheme = atoi (
-      g_key_file_get_value (key_file, "ginga-gui", "gui-theme", &error));
+  load_number (key_file, "aspect-ratio",
+               &presentationAttributes.aspectRatio);
+  load_number (key_file, "frame-rate", &presentationAttributes.frameRate);
+  load_number (key_file, "gui-theme", &presentationAttributes.guiTheme);
 
-  hist_str
-      = g_key_file_get_value (key_file, "ginga-gui", "historic", &error);
+  hist_str = g_key_file_get_value (key_file, "ginga-gui", "historic", NULL);
 
   if (hist_str != NULL)
     {
-- 
2.43.0


From 6a3b3eb8bb475d189330662bd75cedb631ac502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:19 +0000
Subject: [PATCH 81/93] fix: GUI: save the names in the history as they are

Names with "##", line breaks or spaces at the end did not survive, and a
line break lost all the settings.
---
 src/gingagui/SaveLoadSettings.cpp | 45 +++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/gingagui/SaveLoadSettings.cpp b/src/gingagui/SaveLoadSettings.cpp
index c24c9ad..f5ac2b4 100644
--- a/src/gingagui/SaveLoadSettings.cpp
+++ b/src/gingagui/SaveLoadSettings.cpp
@@ -42,21 +42,24 @@ save_settings (void)
       key_file, "ginga-gui", "gui-theme",
       g_markup_printf_escaped ("%d", presentationAttributes.guiTheme));
 
-  gchar *hist_str = g_markup_printf_escaped (" ");
   GList *childs = gtk_container_get_children (GTK_CONTAINER (historicBox));
+  GPtrArray *history = g_ptr_array_new ();
   for (GList *l = childs; l != NULL; l = l->next)
     {
       GtkWidget *row = (GtkWidget *) l->data;
       GtkWidget *label = gtk_bin_get_child (GTK_BIN (row));
-      hist_str = g_strconcat (hist_str, "##",
-                              gtk_label_get_text (GTK_LABEL (label)), NULL);
+      g_ptr_array_add (history,
+                       (gpointer) gtk_label_get_text (GTK_LABEL (label)));
     }
 
-  g_key_file_set_value (key_file, "ginga-gui", "historic", hist_str);
+  g_key_file_set_string_list (key_file, "ginga-gui", "history",
+                              (const gchar *const *) history->pdata,
+                              history->len);
 
   g_key_file_save_to_file (key_file, file_path, &error);
 
-  g_free (hist_str);
+  g_ptr_array_free (history, TRUE);
+  g_list_free (childs);
   g_free (file_path);
 }
 
@@ -70,11 +73,25 @@ load_number (GKeyFile *key_file, const gchar *key, guint *number)
   g_free (value);
 }
 
+// The history as it was saved by earlier versions.
+static gchar **
+load_old_history (GKeyFile *key_file)
+{
+  gchar **history = NULL;
+  gchar *value
+      = g_key_file_get_value (key_file, "ginga-gui", "historic", NULL);
+  const gchar *first = value != NULL ? strstr (value, "##") : NULL;
+  if (first != NULL)
+    history = g_strsplit (first + 2, "##", -1);
+  g_free (value);
+  return history;
+}
+
 void
 load_settings (void)
 {
   GError *error = NULL;
-  gchar *hist_str = NULL;
+  gchar **history = NULL;
   gchar *file_path = g_build_path (
       G_DIR_SEPARATOR_S, g_get_user_config_dir (), SETTINGS_FILENAME, NULL);
   GKeyFile *key_file = g_key_file_new ();
@@ -93,28 +110,28 @@ load_settings (void)
   load_number (key_file, "frame-rate", &presentationAttributes.frameRate);
   load_number (key_file, "gui-theme", &presentationAttributes.guiTheme);
 
-  hist_str = g_key_file_get_value (key_file, "ginga-gui", "historic", NULL);
+  history = g_key_file_get_string_list (key_file, "ginga-gui", "history",
+                                        NULL, NULL);
+  if (history == NULL)
+    history = load_old_history (key_file);
 
-  if (hist_str != NULL)
+  if (history != NULL)
     {
       if (historicBox == NULL)
         {
           historicBox = gtk_list_box_new ();
           g_assert_nonnull (historicBox);
         }
-      gchar **str_split = g_strsplit (hist_str, "##", -1);
-      guint str_v_len = g_strv_length (str_split);
-      for (guint i = 1; i < str_v_len; i++)
+      for (guint i = 0; history[i] != NULL; i++)
         {
 
-          GtkWidget *label = gtk_label_new (str_split[i]);
+          GtkWidget *label = gtk_label_new (history[i]);
           gtk_widget_set_halign (label, GTK_ALIGN_START);
           gtk_list_box_insert (GTK_LIST_BOX (historicBox), label, -1);
         }
-      g_strfreev (str_split);
     }
 
 endload:
-  g_free (hist_str);
+  g_strfreev (history);
   g_free (file_path);
 }
-- 
2.43.0


From 67cd69f1446f3f2e5a1c8f4f63eb4158ce9a5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:55 +0000
Subject: [PATCH 82/93] fix: opening a file again drops another one from the
 history

The file that is opened again was counted twice: the oldest file was
removed although there was room for it and, when it was the very file that
is opened, its row was removed a second time after it had been destroyed.
---
 src/gingagui/MainWindow.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 424edf6..145a227 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -430,6 +430,7 @@ insert_historicbox (gchar *filename)
 {
   gtk_entry_set_text (GTK_ENTRY (fileEntry), filename);
   GList *childs = gtk_container_get_children (GTK_CONTAINER (historicBox));
+  guint length = g_list_length (childs);
   for (GList *l = childs; l != NULL; l = l->next)
     {
       GtkWidget *row = (GtkWidget *) l->data;
@@ -438,8 +439,9 @@ insert_historicbox (gchar *filename)
         {
           gtk_container_remove (GTK_CONTAINER (historicBox),
                                 GTK_WIDGET (row));
+          length--;
         }
-      if (l->next == NULL && g_list_length (childs) > 5)
+      else if (l->next == NULL && length > 5)
         {
           gtk_container_remove (GTK_CONTAINER (historicBox),
                                 GTK_WIDGET (row));
-- 
2.43.0


From 3e5847b06cc1086969d88e246f3f12c8aa917d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:45 +0000
Subject: [PATCH 83/93] fix: the graphical program is stuck after a file that
 cannot be presented

A file with another extension, or one that the engine refuses, left the
program in play mode: the next click on play did nothing, or the buttons
stayed insensitive until stop was clicked.  The error is shown now.
---
 src/gingagui/MainWindow.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 145a227..4627c03 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -1065,6 +1065,7 @@ play_pause_button_callback (void)
           show_infobar (g_markup_printf_escaped (
               "Error reading \"%s\": %s is a invalid formart file.", file,
               ext));
+          inPlayMode = FALSE;
           return;
         }
 
@@ -1077,7 +1078,14 @@ play_pause_button_callback (void)
       gtk_widget_set_sensitive (playButton, !inPlayMode);
 
       // Start Ginga.
-      GINGA->start (file, nullptr);
+      std::string errmsg;
+      if (!GINGA->start (file, &errmsg))
+        {
+          show_infobar (g_markup_printf_escaped (
+              "Error reading \"%s\": %s", file, errmsg.c_str ()));
+          stop_button_callback ();
+          return;
+        }
 
       // clear log
       gtk_text_buffer_set_text (consoleTxtBuffer, "", 0);
-- 
2.43.0


From 2da71c7b3ed2ff3d1eb8c56f904479a3b5688ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:13 +0000
Subject: [PATCH 84/93] fix: the graphical program crashes at a key without a
 name

gdk_keyval_name() returns NULL for it.  Keys that are not keys of the
presentation are not passed on.
---
 src/gingagui/MainWindow.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 4627c03..eca6287 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -570,14 +570,16 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
       break;
     default:
       key = gdk_keyval_name (e->keyval);
-      if (strlen (key) > 1)
+      if (key == NULL) // has no name
+        key = "\0";
+      else if (strlen (key) > 1)
         {
           key = g_utf8_strup (key, -1);
         }
       break;
     }
 
-  if (GINGA->getState () == GINGA_STATE_PLAYING)
+  if (*key != '\0' && GINGA->getState () == GINGA_STATE_PLAYING)
     GINGA->sendKey (std::string (key),
                     g_strcmp0 ((const char *) type, "press") == 0);
 
-- 
2.43.0


From 954b51f00f693b2a35938bffef65fdc78e134b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:13 +0000
Subject: [PATCH 85/93] fix: the shortcuts of the graphical program keep
 letters from documents

F, R, B and D were never passed on to the presentation, even without
Ctrl; with it, the shortcuts that switch something on and off did so when
the letter was pressed and again when it was released.
---
 src/gingagui/MainWindow.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index eca6287..6491d73 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -485,6 +485,8 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
                    gpointer type)
 {
   const char *key = "\0";
+  gboolean press = g_strcmp0 ((const char *) type, "press") == 0;
+  gboolean shortcut = isCrtlModifierActive && press;
 
   switch (e->keyval)
     {
@@ -506,22 +508,30 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
       break;
     case GDK_KEY_F:
     case GDK_KEY_f:
-      if (isCrtlModifierActive && !isFullScreenMode)
+      if (!shortcut)
+        key = gdk_keyval_name (e->keyval);
+      else if (!isFullScreenMode)
         set_fullscreen_mode ();
       break;
     case GDK_KEY_R:
     case GDK_KEY_r:
-      if (isCrtlModifierActive)
+      if (!shortcut)
+        key = gdk_keyval_name (e->keyval);
+      else
         create_tvcontrol_window ();
       break;
     case GDK_KEY_B:
     case GDK_KEY_b:
-        //if (isCrtlModifierActive)
-        //  create_bigpicture_window ();
-        break;
+      if (!shortcut)
+        key = gdk_keyval_name (e->keyval);
+      //else
+      //  create_bigpicture_window ();
+      break;
     case GDK_KEY_D:
     case GDK_KEY_d:
-      if (isCrtlModifierActive)
+      if (!shortcut)
+        key = gdk_keyval_name (e->keyval);
+      else
         enable_disable_debug ();
       break;
     case GDK_KEY_asterisk:
@@ -580,8 +590,7 @@ keyboard_callback (unused (GtkWidget *widget), GdkEventKey *e,
     }
 
   if (*key != '\0' && GINGA->getState () == GINGA_STATE_PLAYING)
-    GINGA->sendKey (std::string (key),
-                    g_strcmp0 ((const char *) type, "press") == 0);
+    GINGA->sendKey (std::string (key), press);
 
 }
 
-- 
2.43.0


From af3d1b90411bbd342070741ed0ba24d2335b78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:35 +0000
Subject: [PATCH 86/93] fix: the console cuts messages that are not ASCII

The length of a text to be inserted is in bytes, not in characters: the
end was missing, and a text cut within a character is refused.
---
 src/gingagui/MainWindow.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 6491d73..cffa0e6 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -125,12 +125,11 @@ g_log_default_handler (unused (const gchar *log_domain),
   // insert message in console text view
   const char *time_label = "[00:00] ";
   gtk_text_buffer_insert_at_cursor (GTK_TEXT_BUFFER (consoleTxtBuffer),
-                                    time_label,
-                                    g_utf8_strlen (time_label, -1));
+                                    time_label, -1);
   gtk_text_buffer_insert_at_cursor (GTK_TEXT_BUFFER (consoleTxtBuffer),
-                                    message, g_utf8_strlen (message, -1));
+                                    message, -1);
   gtk_text_buffer_insert_at_cursor (GTK_TEXT_BUFFER (consoleTxtBuffer),
-                                    "\n", g_utf8_strlen ("\n", -1));
+                                    "\n", -1);
 
   if ((log_level == G_LOG_LEVEL_ERROR) || (log_level == G_LOG_FLAG_FATAL))
     {
-- 
2.43.0


From 0336274a685db7a2487b4a4866b29470cc25140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 87/93] fix: the size of the main window is not the size of the
 full screen

A change of the main window while the presentation is shown on the full
screen resized the presentation.  The size is taken into account when the
full screen is left.
---
 src/gingagui/MainWindow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index cffa0e6..3e8e4be 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -163,7 +163,8 @@ resize_callback (GtkWidget *widget, GdkEventConfigure *e, gpointer data)
   presentationAttributes.resolutionWidth = e->width;
   presentationAttributes.resolutionHeight = e->height;
 
-  GINGA->resize (e->width, e->height);
+  if (!isFullScreenMode) // else, when it is left
+    GINGA->resize (e->width, e->height);
 
   return FALSE;
 }
-- 
2.43.0


From fe3a142ee4b92b6e9d577ac9999ffc58f09ea103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 88/93] fix: the graphical program goes on playing a
 presentation that has ended

A presentation that is found to have ended when a key is passed on left
the program in play mode: nothing could be played until stop was clicked.
---
 src/gingagui/Draw.cpp   | 2 ++
 src/gingagui/gingagui.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/gingagui/Draw.cpp b/src/gingagui/Draw.cpp
index 4788b77..d33434d 100644
--- a/src/gingagui/Draw.cpp
+++ b/src/gingagui/Draw.cpp
@@ -36,6 +36,8 @@ update_draw_callback (GtkWidget *widget)
 
   if (GINGA->getState () == GINGA_STATE_STOPPED)
     {
+      if (inPlayMode) // was ended by a key
+        stop_button_callback ();
       playing = FALSE;
       goto queue_draw;
     }
diff --git a/src/gingagui/gingagui.h b/src/gingagui/gingagui.h
index ff3f7e8..9cedbb5 100644
--- a/src/gingagui/gingagui.h
+++ b/src/gingagui/gingagui.h
@@ -50,6 +50,7 @@ extern GtkWidget *gingaView;
 extern GtkWidget *historicBox;
 extern gboolean isFullScreenMode;
 extern gboolean isDebugMode;
+extern gboolean inPlayMode;
 extern gboolean needShowSideBar;
 extern gboolean needShowErrorBar;
 extern gboolean inBigPictureMode;
-- 
2.43.0


From cf59ed5760a34567ed4647a3f844755f293473e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 89/93] fix: the buttons of the remote control are never
 released

The second click on a button had no effect, as its key was still pressed.
---
 src/gingagui/TvControlWindow.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gingagui/TvControlWindow.cpp b/src/gingagui/TvControlWindow.cpp
index c26acf2..2dd0c86 100644
--- a/src/gingagui/TvControlWindow.cpp
+++ b/src/gingagui/TvControlWindow.cpp
@@ -27,6 +27,7 @@ key_tvremote_press_event_callback (GtkWidget *widget,
 {
   const gchar *widget_name = gtk_widget_get_name (widget);
   GINGA->sendKey (std::string (widget_name), true);
+  GINGA->sendKey (std::string (widget_name), false);
 }
 
 GtkWidget *
-- 
2.43.0


From e5da433f9d437d40c7b67283a30aa72e18bbeb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 90/93] fix: the OK button of the remote control selects
 nothing

The key that selects is ENTER, as for the keyboard.
---
 src/gingagui/TvControlWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gingagui/TvControlWindow.cpp b/src/gingagui/TvControlWindow.cpp
index 2dd0c86..fbd26c4 100644
--- a/src/gingagui/TvControlWindow.cpp
+++ b/src/gingagui/TvControlWindow.cpp
@@ -231,7 +231,7 @@ create_tvremote_buttons (guint offSetX, guint offSetY)
   GtkWidget *button_ok = gtk_button_new ();
   g_assert_nonnull (button_ok);
   gtk_button_set_image (GTK_BUTTON (button_ok), button_icon);
-  gtk_widget_set_name (button_ok, "OK");
+  gtk_widget_set_name (button_ok, "ENTER");
   g_signal_connect (button_ok, "clicked",
                     G_CALLBACK (key_tvremote_press_event_callback), NULL);
   gtk_fixed_put (GTK_FIXED (fixed_layout), button_ok,
-- 
2.43.0


From f83346d2ec910b602b0a89dd4ac633029be1ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 91/93] fix: the graphical program crashes at a file that is
 not local

gtk_file_chooser_get_filename() returns NULL for it.
---
 src/gingagui/MainWindow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index 3e8e4be..fb927e4 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -1118,6 +1118,11 @@ void select_ncl_file_callback (unused (GtkWidget *widget),
       gchar *filename;
       GtkFileChooser *chooser = GTK_FILE_CHOOSER (dialog);
       filename = gtk_file_chooser_get_filename (chooser);
+      if (filename == NULL) // is not a local file
+        {
+          gtk_widget_destroy (dialog);
+          return;
+        }
 
       gchar *ext = strrchr (filename, '.');
       if (g_strcmp0 (ext, ".ncl"))
-- 
2.43.0


From a8f84c8aa4c796a343cd839faf959792872bfbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:17 +0000
Subject: [PATCH 92/93] fix: the focus starts at the first index in the
 alphabet

A document with ten or more indices started with the focus on "10", not
on "2".
---
 lib/MediaSettings.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/MediaSettings.cpp b/lib/MediaSettings.cpp
index 9b58a55..82bc566 100644
--- a/lib/MediaSettings.cpp
+++ b/lib/MediaSettings.cpp
@@ -23,6 +23,20 @@ along with Ginga.  If not, see <https://www.gnu.org/licenses/>.  */
 
 namespace ginga {
 
+// Indices are numbers: "9" precedes "10".  Other indices follow the numbers.
+static bool
+index_precedes (const string &a, const string &b)
+{
+  gint64 m, n;
+  bool is_a, is_b;
+
+  is_a = _xstrtoll (a, &m, 10);
+  is_b = _xstrtoll (b, &n, 10);
+  if (is_a != is_b)
+    return is_a;
+  return is_a && m != n ? m < n : a < b;
+}
+
 // Public.
 
 MediaSettings::MediaSettings (const string &id)
@@ -92,7 +106,7 @@ MediaSettings::updateCurrentFocus (const string &index)
         {
           if (media->isOccurring ()
               && (i = media->getProperty ("focusIndex")) != ""
-              && (next == "" || i < next))
+              && (next == "" || index_precedes (i, next)))
             {
               next = i;
             }
-- 
2.43.0


From f7d802b959b23dd6b12feee9ae6fac4a8b0fabfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 93/93] fix: files chosen from the history or given at the
 start are not saved in it

Only those of the dialog were.
---
 src/gingagui/MainWindow.cpp | 1 +
 src/gingagui/gingagui.cpp   | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gingagui/MainWindow.cpp b/src/gingagui/MainWindow.cpp
index fb927e4..27656a9 100644
--- a/src/gingagui/MainWindow.cpp
+++ b/src/gingagui/MainWindow.cpp
@@ -468,6 +468,7 @@ select_historic_line (GtkListBox *box, GtkListBoxRow *row,
 
   gtk_widget_show_all (historicBox);
   hide_historicbox ();
+  save_settings ();
 
   if (!inPlayMode)
     {
diff --git a/src/gingagui/gingagui.cpp b/src/gingagui/gingagui.cpp
index c16c122..9d8d87e 100644
--- a/src/gingagui/gingagui.cpp
+++ b/src/gingagui/gingagui.cpp
@@ -233,7 +233,10 @@ main (int argc, char **argv)
           gchar *filename = saved_argv[1];
           gchar *ext = strrchr (filename, '.');
           if (!g_strcmp0 (ext, ".ncl"))
-            insert_historicbox (filename);
+            {
+              insert_historicbox (filename);
+              save_settings ();
+            }
         }
     }
 
-- 
2.43.0

