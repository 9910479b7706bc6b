"""Further properties (see meta.py)."""

NA = []


def add(prop, HIST, LAY):
    prop("C12", "Every frame shows each visible media where its properties say",
         "A frame drawn at any moment shows exactly the presented visible "
         "media, each filling the rectangle its geometry properties and "
         "regions give for the current screen size, in its background and "
         "transparency, stacked by zIndex and zOrder over the formatter's "
         "background. The focused media, and no other, has its focus "
         "border.",
         ["histories", "inputs", "schedules"],
         "every valid document, every host history with screens of any size "
         "that are resized at any point, and every frame drawn in it",
         "The tests never look at a frame; geometry, stacking, focus and "
         "resizing only meet when documents, attributions and resizes are "
         "combined.",
         ["lib/Player.cpp", "lib/Formatter.cpp", "lib/Media.cpp",
          "lib/Parser.cpp"],
         [("geometry", "Player::doSetProperty"),
          ("regions", "ParserState::pushRegion"),
          ("frame", "Formatter::redraw, Player::redraw")],
         "pixel-exact comparison of every frame with a reference renderer "
         "driven by the reference model",
         observe=["every pixel of the cairo surface the host passes"],
         note="Pixels covered by media whose stacking order the document "
         "leaves open are not compared. Sampled: seeded search.")

    prop("C13", "Animated properties move on the media's clock to their exact target",
         "An attribution with a duration changes a geometry, background or "
         "transparency property linearly on the media's own clock from its "
         "previous value and ends exactly on the new one; it stands still "
         "while the media is paused and the last value set wins over a "
         "running change. Other properties change at once, and an entry "
         "fade brings the media from invisible to its own opacity in the "
         "same way.",
         ["histories", "inputs", "schedules"],
         "every valid document with attributions with durations and entry "
         "transitions, every host history and every frame drawn in it",
         "The tests never advance an animation nor look at a frame; what "
         "matters is the state of the animation at arbitrary instants, with "
         "pauses and further attributions in between.",
         ["lib/PlayerAnimator.cpp", "lib/Player.cpp", "lib/Media.cpp",
          "lib/Parser.cpp"],
         [("scheduling", "PlayerAnimator::schedule"),
          ("progress", "PlayerAnimator::update, AnimInfo::update"),
          ("entry transitions", "PlayerAnimator::scheduleTransition")],
         "comparison of every frame with a reference renderer that "
         "interpolates on the reference model's media clocks",
         observe=["every pixel of the cairo surface the host passes"],
         note="Edges are compared to within 2 pixels and colours to within "
         "3 units while in flight, exactly when at rest; the area of a wipe "
         "is not compared while the wipe runs. Sampled: seeded search.")

    prop("C14", "Unacceptable documents are refused with a reason and leave no trace",
         "A document that is malformed, unreadable or breaks a rule of the "
         "language is refused with an explanation, whenever it is offered, "
         "and the running session and everything presented later go on as "
         "if it had not been offered. A valid document is accepted however "
         "the storage delivers it. No file content and no I/O error makes "
         "the engine crash, report an internal failure or lose memory.",
         ["inputs", "fault_sequences", "histories"],
         "every document that breaks one rule of the language, every "
         "damaged document, every open or read error at any byte, and every "
         "point of a host history at which it is offered",
         "The tests refuse a fixed list of buffers on a fresh parser; they "
         "never read from failing storage, never refuse a document while "
         "another is running and never look at what the refusal leaves "
         "behind.",
         ["lib/Parser.cpp", "lib/Formatter.cpp", "lib/aux-ginga.cpp"],
         [("syntax and references", "ParserState::checkNode, resolve*, "
           "popNcl"),
          ("entry points", "Parser::parseFile, Formatter::start")],
         "each rule of the language is broken on purpose in generated valid "
         "documents; memory accounting over repeated loads; the reference "
         "model judges the sessions around them",
         observe=["result and message of every load",
                  "live memory after repeated loads",
                  "everything C01-C11 observe in the sessions around them"],
         note="Bad property values are reported when presented, by design "
         "fatally, and are not part of this. Sampled: seeded search.")

    prop("C17", "Instances in one process are independent and the host interface is total",
         "Instances created in one process never influence each other, "
         "however their calls interleave, and each behaves as if it were "
         "alone. Every call of the host interface is accepted in every "
         "state with the documented result: a session starts only when "
         "none is running, stops only when one is, input is refused while "
         "stopped, and options read back as they were set. Calls that are "
         "refused have no effect, and an instance can be destroyed and "
         "created at any time.",
         ["histories", "schedules"],
         "every interleaving of host calls on any number of instances, each "
         "with its own document, options and history",
         "The tests create one formatter per process, start one document "
         "and call nothing out of turn.",
         ["lib/Formatter.cpp", "lib/ginga.h", "lib/Ginga.cpp",
          "lib/Player.cpp", "lib/MediaSettings.cpp"],
         [("session control", "Formatter::start, Formatter::stop"),
          ("options", "Formatter::setOption*, Formatter::getOption*"),
          ("state shared by instances", "statics of Player, Media and "
           "PlayerText")],
         "each instance of an interleaved run is compared with the "
         "reference model of that instance alone, and every result with a "
         "model of the interface",
         observe=["result of every call of the interface",
                  "everything C01-C13 observe, per instance"])

    prop("C15", "What a document does depends on what it says, not on how it is written",
         "However a document is written - in whatever encoding, order, "
         "quoting and spelling of names and times, with roles and "
         "connectors of its own or shared ones, values given in place or "
         "through parameters, and its bases spread over files that import "
         "one another - it is accepted and behaves the same on every "
         "history. References name exactly the element they say, through "
         "any number of imports, wherever the files are.",
         ["programs", "inputs", "histories"],
         "every way to write down the same presentation and every host "
         "history",
         "The tests write each construct in one way, import one level deep "
         "and look at the parsed objects, not at what they do.",
         ["lib/Parser.cpp", "lib/aux-ginga.cpp", "lib/Formatter.cpp"],
         [("references and imports", "ParserState::checkNode, "
           "aliasStackCombine, pushImportBase, eltCacheIndexById"),
          ("roles, parameters, times", "resolveParameter, "
           "pushSimpleCondition, pushBind, popNcl; try_parse_time")],
         "documents are respelt at random (files, aliases, encodings, "
         "entities, order, notations) and must behave as the reference "
         "model, which only knows what they say, under seeded histories",
         observe=["everything C01-C13 observe, frames included",
                  "acceptance of the document"]),
    prop("C16", "Sessions, instances and frames give back everything they use",
         "However often a presentation is started, driven and ended, in "
         "whatever way it ends, the memory, objects and files in use return "
         "to where they were; and a presentation that keeps returning to "
         "the same state does not need more and more of them however long "
         "it runs. Resources are released at the latest with the instance "
         "that took them.",
         ["histories", "programs"],
         "every document, every host history and every way of ending a "
         "session, repeated without bound",
         "The tests start one document per process, exit the process "
         "afterwards and never look at what is left in use.",
         ["lib/Formatter.cpp", "lib/Document.cpp", "lib/Object.cpp",
          "lib/Parser.cpp", "lib/Player.cpp", "lib/PlayerAnimator.cpp",
          "lib/WebServices.cpp"],
         [("end of a session", "Formatter::stop, Document::~Document"),
          ("pending work", "Object::addDelayedAction, Object::sendTick")],
         "identical sessions and identical rounds of host calls are "
         "repeated in one process and what is in use is measured after "
         "each; growth in every repetition is a violation",
         observe=["live C++ objects and bytes in the simulator's arena",
                  "heap memory in use by the libraries",
                  "open file descriptors"],
         note="Repetitions that pile up delayed actions are excluded. "
         "Sampled: seeded search.")

    prop("C19", "Web requests do exactly what they name and remote devices follow",
         "A well-formed request to select, look at or look away from a node "
         "has exactly the effect of the event it names on the running "
         "presentation, and any other request is refused without effect; a "
         "device that registers is given the media that match it, and is "
         "told of every start, pause, resume and stop of that media in "
         "order. No request, busy port, discovery failure, device failure "
         "or late answer disturbs the presentation or ends the player.",
         ["histories", "inputs", "fault_sequences"],
         "every document, every host history interleaved with every "
         "request, and every failure of the network at any point",
         "The tests send a fixed sequence of good requests to one document "
         "over a real socket; they are not among the tests that pass "
         "reliably.",
         ["lib/WebServices.cpp", "lib/PlayerRemote.cpp", "lib/Document.cpp",
          "lib/Media.cpp", "lib/Formatter.cpp"],
         [("requests", "cb_apps, cb_remoteplayer, cb_locaction"),
          ("registration", "WebServices::machMediaThenSetPlayerRemote"),
          ("devices", "PlayerRemote::sendAction, Player::createPlayer")],
         "requests are delivered to the engine's real handlers by a "
         "simulated HTTP server; the reference model performs the event "
         "each request names, keeps the registrations and predicts every "
         "request to every device and every answer",
         observe=["status and headers of every answer",
                  "every request sent to a device, in order",
                  "everything C01-C11 observe",
                  "servers and sessions left at the end"],
         note="The HTTP and SSDP libraries are simulated at their "
         "interface; HTTP parsing is not part of this. Sampled: seeded "
         "search.")

    prop("C18", "Scripts follow the presentation and act on it event by event",
         "An NCLua script is opened in its own directory when its media "
         "starts and closed when it ends, and in between is told, in order, "
         "of every start, stop, pause and resume of the media and of its "
         "labelled anchors, of every property that is set and of every key "
         "while the media has the focus. Each event the script posts has on "
         "the next instant exactly the effect of the action it names, and "
         "events that name nothing have none; no script can end the player.",
         ["histories", "inputs", "schedules"],
         "every document with scripts, every host history and every "
         "sequence of events posted by the scripts at any time",
         "The tests that use scripts need the NCLua library, run a fixed "
         "script and only check that nothing crashes.",
         ["lib/PlayerLua.cpp", "lib/Media.cpp", "lib/Player.cpp",
          "lib/Object.cpp"],
         [("events to scripts", "PlayerLua::start, stop, pause, resume, "
           "sendKeyEvent, sendPresentationEvent, doSetProperty"),
          ("events from scripts", "PlayerLua::redraw, "
           "Media::addDelayedAction")],
         "a simulated NCLua engine records what scripts are told and posts "
         "what the scenario decides; the reference model predicts both",
         observe=["every call of the NCLua interface, in order",
                  "working directory of the process",
                  "everything C01-C13 observe"],
         note="The NCLua library is simulated at its interface; a script "
         "that cannot be opened ends the player by design. Sampled: seeded "
         "search.")

    prop("C20", "Texts and pictures are shown in their place and style",
         "A media with a text or a picture shows it in its rectangle: "
         "pictures stretched to fill it, texts laid out for it in their "
         "colour, font (of the system or of the document), size and "
         "alignment, both in the transparency of the media. What is on the screen depends only on the current values "
         "of the properties, never on what they or earlier documents were, "
         "and not on how the storage delivers the files.",
         ["histories", "inputs", "fault_sequences", "schedules"],
         "every document with texts and pictures under any file name, every "
         "host history with resizes and restarts, with files that arrive in "
         "short or interrupted reads",
         "The tests never look at a frame, never change a property of a "
         "text while it is shown, and use fixed file names.",
         ["lib/PlayerText.cpp", "lib/PlayerImage.cpp", "lib/Player.cpp",
          "lib/PlayerAnimator.cpp", "lib/Parser.cpp"],
         [("texts", "PlayerText::reload, renderSurface, doSetProperty"),
          ("pictures", "PlayerImage::reload"),
          ("stretching", "Player::redraw")],
         "frames of seeded histories against a reference renderer (pictures)"
         ", and pixel-exact against a fresh presentation built from the "
         "properties the reference model predicts (texts)",
         observe=["every pixel of the cairo surface the host passes"],
         note="The shapes of letters are those pango draws: only position, "
         "alignment, colour and the effect of each style are checked "
         "absolutely. Files that cannot be opened end the player by design. "
         "Sampled: seeded search.")

    prop("C21", "Videos, audios and tones play as the document says",
         "A video, audio or tone is played, paused and stopped exactly when "
         "its media is, from the position, at the rate and with the sound "
         "properties the document last set, whether they were set before the "
         "stream was ready or after; the media shows the current picture of "
         "its stream. When the stream ends or a tone cannot be played the "
         "media ends, unless it is to freeze. Whatever the stream reports "
         "and however late, the media framework is used correctly and "
         "nothing crashes.",
         ["histories", "schedules", "fault_sequences", "programs"],
         "every document with streams, every host history, every arrival "
         "order of stream messages, streams that are slow to start, cannot "
         "seek, do not know their position or have no pictures",
         "The tests start one player alone with no stream at all, and check "
         "no position, rate, picture or message.",
         ["lib/PlayerVideo.cpp", "lib/PlayerSigGen.cpp", "lib/Player.cpp",
          "lib/Media.cpp"],
         [("streams", "PlayerVideo::start, stop, pause, resume"),
          ("positions and rates", "PlayerVideo::seek, speed, doSetProperty"),
          ("messages", "PlayerVideo::cb_Bus, doStackedActions"),
          ("pictures", "PlayerVideo::redraw, PlayerSigGen::redraw"),
          ("tones", "PlayerSigGen::start, doSetProperty")],
         "seeded histories with simulated stream elements on the real "
         "GStreamer core, against the reference model: state, position, "
         "rate and sound of every stream after every host operation, frames,"
         " and the warnings of the framework",
         observe=["state, position, rate, volume, mute, balance and bands of "
                  "every playbin; state, frequency, wave and volume of every "
                  "tone; pixels; event states"],
         note="Decoding, devices and the threads of GStreamer are not run. "
         "Errors of streams end the player by design. Sampled: seeded "
         "search.")

    prop("C22", "The player hands the user's files, keys, time and window on truthfully",
         "The player program presents the files of its command line one "
         "after the other, each from its own beginning and on exactly the "
         "time of the frames, until it ends or the user leaves, and its exit "
         "status is the number of those it could not present. Keys reach the "
         "document as pressed or released under their NCL names, the picture "
         "follows the window, and the program's own keys (Escape, F10, F11) "
         "do only what they are for. No order of frames, keys, resizes, "
         "redraws, signals and closings, even of events delivered while it "
         "is leaving a presentation, makes it crash, and command lines that "
         "make no sense are refused.",
         ["inputs", "schedules", "histories", "configurations",
          "fault_sequences"],
         "every command line with good and bad files, every sequence of "
         "frames at any pace, of key strokes, window events, signals at any "
         "transition of the engine, and closings",
         "The tests exercise the library only; neither program is run by any "
         "of them.",
         ["src/ginga.cpp", "lib/Formatter.cpp"],
         [("files and exit status", "main"),
          ("keys", "keyboard_callback"), ("time", "tick_callback"),
          ("window", "resize_callback, draw_callback, exit_callback"),
          ("command line", "opt_size_cb, options")],
         "the real program under a simulated window system whose events and "
         "signals the search decides; each presentation is compared with the "
         "reference model fed with what the user did",
         observe=["object times, event states and properties after every "
                  "event", "every pixel drawn", "the options of the engine",
                  "requests to draw again", "exit status"],
         note="GTK itself is simulated: callbacks, main loop, frame clock. "
         "The OpenGL and Qt players, which cannot be built here, are not "
         "run. Sampled: seeded search.")
    prop("C23", "The settings of the graphical program survive",
         "What the graphical program saved last, and its history of files in "
         "order whatever their names, is what it finds when it is started "
         "again, on any directory of settings. A save that fails, a process "
         "that dies or a loss of power at any point of a save leaves the "
         "settings of before or the new ones, never a mixture, a part or "
         "nothing. Damaged files and files of other versions never make the "
         "program crash, what is in them is read, and the next save works.",
         ["histories", "crash_points", "fault_sequences", "inputs"],
         "every sequence of sessions and changes, with a failure, a short "
         "write, a crash or a loss of power at any operation of the disk",
         "No test runs the graphical program.",
         ["src/gingagui/SaveLoadSettings.cpp"],
         [("saving", "save_settings"), ("loading", "load_settings")],
         "sessions run one after another on a simulated disk whose failures, "
         "crashes and losses of power the search decides; what each loads is "
         "compared with the set of settings the disk may hold",
         observe=["settings and history after loading", "operations of the "
                  "disk and which of them failed"],
         note="The list box is simulated, key files are GLib's. The first "
         "file ever saved is not synchronised by GLib and may be lost with "
         "the power. One instance at a time. Sampled: seeded search.")
    prop("C24", "The windows of the graphical program drive one presentation right",
         "Whatever the user does with the windows of the graphical program - "
         "buttons, keys, remote control, full screen, history, dialogs - the "
         "presentation is what its document prescribes for the keys passed "
         "on, each pressed and released once, for the time of the frames "
         "shown, and in the size of the window that shows it. A file that "
         "cannot be presented, or a presentation that ends, leaves the "
         "program ready for the next, and the history lists the files chosen, "
         "each once, most recent first, at most six, and is there at the next "
         "start. Nothing crashes, and closing the main window ends the "
         "presentation, closes all windows and exits with 0.",
         ["inputs", "schedules", "histories", "configurations"],
         "every sequence of clicks, keys, frames at any pace, resizes, "
         "dialogs, messages and closings on the windows that are open",
         "No test runs the graphical program.",
         ["src/gingagui/MainWindow.cpp", "src/gingagui/Draw.cpp",
          "src/gingagui/FullscreenWindow.cpp",
          "src/gingagui/TvControlWindow.cpp", "src/gingagui/gingagui.cpp"],
         [("playing and stopping", "play_application, stop_application"),
          ("keys", "keyboard_callback, key_tvcontrol_press_callback"),
          ("time and size", "update_draw_callback, change_aspect"),
          ("full screen", "create_fullscreen_window, "
                          "destroy_fullscreen_window"),
          ("history", "insert_historicbox")],
         "the real graphical program is run under a simulated toolkit whose "
         "every event the search decides; a model of the windows says what "
         "reaches the engine, and each presentation is compared with the "
         "reference model fed with it",
         observe=["object times, event states and properties after every "
                  "event", "every pixel drawn", "which window shows the "
                  "presentation and its size", "sensitive buttons, messages "
                  "and history", "exit status"],
         note="GTK itself is simulated, and so are positions and looks of "
         "widgets, which are not judged. The big-picture mode is not "
         "modelled. Sampled: seeded search.")
