#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TECH = "deterministic simulation: seeded search over documents, host " \
    "histories, memory layouts and faults; "


def prop(id, title, statement, over, qtext, why, files, mech, oracle,
         state=None, observe=None, note=None):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, statement
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech,
                  oracle=oracle, state=state or [], observe=observe or [],
                  note=note))


CORE_FILES = ["lib/Event.cpp", "lib/Object.cpp", "lib/Document.cpp",
              "lib/Context.cpp", "lib/Media.cpp", "lib/Switch.cpp"]
HIST = "every valid document, every host history (ticks of any length, key " \
    "events, remote actions, stop and restart at any point) and every " \
    "order in which the engine may visit objects and events"
LAY = "The tests run hand-written documents under one regular tick and one " \
    "memory layout; the engine keeps its objects and events in sets ordered " \
    "by address, so what they exercise is one schedule of each."

prop("C01", "Presentation, attribution and selection events obey their state machine",
     "Every event is sleeping, occurring or paused; start, pause, resume, "
     "stop and abort succeed exactly from the states NCL allows and lead "
     "exactly to the state NCL prescribes. A refused transition changes "
     "nothing, and no event ever changes state without such a transition of "
     "it or of the object that owns it.",
     ["histories", "schedules", "programs"], HIST, LAY,
     ["lib/Event.cpp", "lib/Media.cpp", "lib/Switch.cpp", "lib/Context.cpp"],
     [("state machine of a single event", "Event::transition"),
      ("before/after hooks that may refuse", "*::beforeTransition, "
       "*::afterTransition")],
     "transition legality invariants plus a sequential reference model",
     state=[("event state", "occurring, paused or sleeping",
             "Event::_state")],
     observe=["every transition request and its outcome",
              "every event's state after every host operation"])

prop("C02", "Objects are presented only inside a presented composition",
     "While a context is sleeping none of its descendants is occurring or "
     "paused, starting a component of a sleeping context starts the "
     "context, and pausing, resuming, stopping or aborting a context does "
     "the same to everything inside it. An object has a running clock "
     "exactly while it is not sleeping, its anchors sleep while it sleeps, "
     "and a sleeping object has no pending actions.",
     ["histories", "schedules", "programs"], HIST, LAY,
     ["lib/Context.cpp", "lib/Composition.cpp", "lib/Object.cpp",
      "lib/Switch.cpp"],
     [("propagation to children", "Context::beforeTransition"),
      ("awake children counter", "Context::incAwakeChildren"),
      ("clock and pending actions", "Object::doStart, Object::doStop")],
     "containment invariants after every host operation plus the reference "
     "model")

prop("C03", "Compositions and documents end exactly when nothing is left in them",
     "A context ends by itself at the first tick at which all its children "
     "are sleeping, and not before; when the body ends, the next host event "
     "reports the end of the document and the formatter is stopped. No "
     "document keeps running with nothing being presented, and none ends "
     "while something still is.",
     ["histories", "schedules", "programs"], HIST, LAY,
     ["lib/Context.cpp", "lib/Formatter.cpp", "lib/Switch.cpp"],
     [("natural end of contexts", "Context::sendTick"),
      ("end of document", "Formatter::sendTick, Formatter::sendKey"),
      ("awake children counter", "Context::_awakeChildren")],
     "reference model of the awake sets and of the end of the document")

prop("C04", "Media clocks, anchors and durations follow the host clock",
     "The clock of a media counts exactly the time it has been occurring; "
     "its temporal anchors begin and end at the first tick at which that "
     "clock reaches their begin and end, and it ends at the first tick at "
     "which the clock passes its duration. Starting a media through an "
     "anchor presents it from the beginning to the end of that anchor.",
     ["histories", "schedules", "inputs"], HIST +
     ", whatever absolute time and frame number the host reports", LAY,
     ["lib/Object.cpp", "lib/Media.cpp", "lib/Player.cpp"],
     [("object clock", "Object::sendTick"),
      ("anchor scheduling", "Media::afterTransition"),
      ("explicit duration", "Media::sendTick, Player::getDuration")],
     "reference model of media clocks, anchors and durations")

prop("C05", "Delayed actions happen once, on time, or not at all",
     "An action delayed by a link happens exactly once, at the first tick "
     "at which the context of the link has been occurring for the delay "
     "since the link was triggered, in the order of their due times. It "
     "never happens if the context ends first, and waits while the context "
     "is paused.",
     ["histories", "schedules", "inputs"], HIST, LAY,
     ["lib/Document.cpp", "lib/Object.cpp", "lib/Context.cpp"],
     [("pending actions", "Object::addDelayedAction, Object::sendTick"),
      ("delay resolution", "Document::evalAction")],
     "reference model of pending actions")

prop("C06", "Links fire exactly when their conditions happen, with all their effects",
     "When an event undergoes the transition a link's condition names and "
     "the condition's test holds at that moment, every action of the link "
     "is performed, in order, exactly once; nothing else ever triggers a "
     "link. This holds for conditions on media, their anchors, references "
     "to them, properties, and contexts and their ports, and only for "
     "links whose context is being presented.",
     ["histories", "schedules", "programs"], HIST, LAY,
     ["lib/Document.cpp", "lib/Context.cpp", "lib/Predicate.cpp",
      "lib/Parser.cpp"],
     [("link evaluation", "Document::evalAction, "
       "Document::evalActionInContext"),
      ("test evaluation", "Document::evalPredicate")],
     "reference model of link evaluation, compared transition by transition")

prop("C07", "A switch presents exactly the component its rules select",
     "Starting a switch starts the first component, in rule order, whose "
     "rule holds for the current settings, or the default component, and "
     "no other; if none applies the switch does not start. While it is "
     "being presented the switch and its ports follow the selected "
     "component, and the switch ends with it.",
     ["histories", "schedules", "programs"], HIST +
     ", with settings changing at any point", LAY,
     ["lib/Switch.cpp", "lib/Document.cpp", "lib/Parser.cpp"],
     [("selection", "Switch::beforeTransition"),
      ("state of the ports", "Switch::afterTransition, "
       "Document::evalAction")],
     "reference model of switches")

prop("C08", "Pause freezes and resume continues",
     "Pausing an object stops its clock, its anchors, its pending actions "
     "and everything inside it, and resuming continues each from exactly "
     "where it was. Time spent paused never counts, and an object stopped "
     "while paused is as if it had been stopped while occurring.",
     ["histories", "schedules", "programs"], HIST, LAY,
     ["lib/Media.cpp", "lib/Context.cpp", "lib/Switch.cpp",
      "lib/Object.cpp"],
     [("pause and resume of media", "Media::beforeTransition"),
      ("pause and resume of contexts", "Context::beforeTransition"),
      ("clock", "Object::sendTick")],
     "reference model of pause and resume")

prop("C09", "Attributions set the property they name and report their extent",
     "Starting an attribution event sets its property to the given value, "
     "or to the current value of the property it refers to, immediately "
     "and for every later reader; the event then occurs for its duration "
     "and ends by itself. A property keeps its value until the next "
     "attribution to it, however objects start and stop in between.",
     ["histories", "schedules", "inputs"], HIST, LAY,
     ["lib/Object.cpp", "lib/Media.cpp", "lib/Context.cpp",
      "lib/Document.cpp"],
     [("assignment", "Object::setProperty, Media::setProperty"),
      ("end of attributions", "Object::scheduleAttributionStop"),
      ("references", "Object::getObjectPropertyByReference")],
     "reference model of properties and attribution events")

prop("C10", "Keys select exactly the objects they should and move the focus",
     "Pressing a key starts the selection events that name it on objects "
     "being presented, and those that name no key only on the focused "
     "object when the key is ENTER; releasing the key ends them. The focus "
     "starts at the lowest focus index being presented and follows the "
     "move properties of the focused object and assignments to the current "
     "focus.",
     ["histories", "schedules", "inputs"], HIST, LAY,
     ["lib/Media.cpp", "lib/MediaSettings.cpp", "lib/Player.cpp",
      "lib/Formatter.cpp"],
     [("key dispatch", "Formatter::sendKey, Media::sendKey"),
      ("focus", "MediaSettings::updateCurrentFocus")],
     "reference model of keys, selections and focus")

prop("C11", "Every presentation of a document starts afresh",
     "Whatever happened before (natural end, stop at any point, any number "
     "of earlier sessions), starting a document on the same formatter "
     "behaves exactly as on a fresh one. While stopped, the formatter "
     "accepts and ignores every host event.",
     ["histories", "crash_points", "schedules"],
     "every sequence of sessions on one formatter, each cut at any point",
     "The tests start one document per formatter; state surviving in "
     "static variables, in players or in the formatter is never seen.",
     ["lib/Formatter.cpp", "lib/Document.cpp", "lib/Player.cpp",
      "lib/Parser.cpp"],
     [("session control", "Formatter::start, Formatter::stop"),
      ("settings", "MediaSettings")],
     "each session compared with a reference model that knows nothing of "
     "earlier ones")

# --- more properties are appended by meta_more.py
try:
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import meta_more
    meta_more.add(prop, HIST, LAY)
except ImportError:
    meta_more = None

NA = list(getattr(meta_more, "NA", []))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"],
                 "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                 "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w}
                              for n, m, w in p["state"]]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"], "anchors": a}) + "\n")
        for n in NA:
            if "record" in n:
                f.write(json.dumps(n["record"]) + "\n")
    checks = []
    nas = set(n["property"] for n in NA)
    for p in P:
        if p["id"] in nas:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 sim/check.py %s --quick" % p["id"],
            "thorough_cmd": "python3 sim/check.py %s --thorough" % p["id"],
            "technique": TECH + p["oracle"],
            "level": "exploration",
            "level_note": p["note"] or
            "Sampled: seeded search, no enumeration. Every violation is "
            "minimised and replayed in fresh processes before it is "
            "reported."})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1,
                   "setup_cmd": "python3 sim/build.py",
                   "checks": checks,
                   "not_applicable": [{"property": n["property"],
                                       "reason": n["reason"]} for n in NA]},
                  f, indent=1)
        f.write("\n")


main()
