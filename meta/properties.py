"""The semantic properties of lager, and how each check is described."""

ENGINE = ("stateless exhaustive exploration of the real code (all choice "
          "sequences within the bounds) in lockstep with a reference model")

NOTES = ("All checks compile /repo's current headers and sources into an "
         "explorer (engine/mc.*) that re-executes the real code for every "
         "sequence of choices within the stated bounds.")

NOT_APPLICABLE = {}


def a(files, mechanism, state=(), observe=(), hook=None):
    return {"files": list(files),
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": hook}


PROPS = []


def prop(id, title, statement, over, text, why, anchors, note, technique=ENGINE):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors=anchors,
                      technique=technique, level_note=note))


CURS = ["lager/detail/nodes.hpp", "lager/detail/signal.hpp", "lager/state.hpp",
        "lager/sensor.hpp", "lager/constant.hpp", "lager/commit.hpp",
        "lager/reader.hpp", "lager/cursor.hpp", "lager/writer.hpp",
        "lager/with.hpp", "lager/detail/lens_nodes.hpp",
        "lager/detail/merge_nodes.hpp", "lager/detail/xform_nodes.hpp"]

prop("C01", "Committed values reach every derived reader, uncommitted ones none",
     "After a commit every reader derived from the committed states, sensors "
     "and constants, through any composition of lenses, maps and merges, shows "
     "exactly the value computed from the committed root values. A value that "
     "was set on a transactional state but not committed is visible through no "
     "reader, whether the reader was derived before or after the set.",
     ["inputs", "histories", "configurations"],
     "all graphs of up to N derived nodes over the node kinds and all "
     "histories of sets, sensor changes, partial and total commits and late "
     "derivations up to a depth",
     "tests sample a handful of fixed graphs with one or two writes each; the "
     "guarantee is over every graph and every history, including reads of "
     "readers derived between a set and the commit",
     a(CURS, [("two phase propagation send_down/notify", "lager/detail/nodes.hpp"),
              ("recompute of inner nodes", "lager/detail/nodes.hpp"),
              ("commit()", "lager/commit.hpp")],
       [("current_/last_", "pending and committed value of a node",
         "lager/detail/nodes.hpp"),
        ("needs_send_down_", "a change waits to be propagated",
         "lager/detail/nodes.hpp")],
       ["reader::get() / operator* / operator->"]),
     "Exhaustive within the bounds (graphs up to 2-4 derived nodes, histories "
     "up to 2-5 operations, small value alphabet); graphs larger than that and "
     "other value types are not covered.")

prop("C02", "A watcher runs exactly once per commit that changes its value",
     "When a commit changes the value of a reader, every watcher of that "
     "reader is called exactly once for that commit, with the new value, and "
     "watchers of readers whose value did not change are not called. While "
     "any watcher runs, every reader reachable from the committed roots "
     "already shows its new value, so watchers never see a half-updated world.",
     ["inputs", "histories", "configurations"],
     "all graphs of up to N derived nodes (diamonds included) and all "
     "histories of writes and partial or total commits up to a depth",
     "tests count calls on a few fixed graphs; glitches and double or missing "
     "calls need particular diamonds and particular sequences of commits",
     a(CURS + ["lager/watch.hpp"],
       [("needs_notify_ / send_down before notify", "lager/detail/nodes.hpp"),
        ("signal emission", "lager/detail/signal.hpp")],
       [("needs_notify_", "watchers must be called", "lager/detail/nodes.hpp")],
       ["watch() callbacks", "reader::get() inside callbacks"]),
     "Exhaustive within the bounds.")

prop("C03", "Writes through derived cursors change exactly the focused part",
     "Setting a cursor, however it was derived through lenses, two-way "
     "transformations and merges, and committing, makes the cursor show the "
     "written value, changes the underlying states exactly as composing the "
     "setters prescribes and leaves every other part untouched. Several writes "
     "before a commit compose in order: update() receives the latest written "
     "value and no pending write through a sibling cursor is lost.",
     ["inputs", "histories", "configurations"],
     "all graphs of up to N derived cursors and all sequences of set, update "
     "and commit on any of the cursors up to a depth",
     "tests write once through one cursor and commit; lost updates need "
     "several pending writes through different cursors of the same state",
     a(CURS, [("refresh() before send_up", "lager/detail/lens_nodes.hpp"),
              ("send_up / push_up", "lager/detail/nodes.hpp"),
              ("update()", "lager/writer.hpp")],
       [("current_", "pending value", "lager/detail/nodes.hpp")],
       ["cursor::set", "cursor::update", "reader::get() after commit"]),
     "Exhaustive within the bounds; lenses and isomorphisms come from a fixed "
     "alphabet of 8 kinds. Writes through a merge whose result depends on the "
     "order in which its parents are written are excluded (unspecified).")

prop("C04", "One combined expression equals the same chain derived step by step",
     "Composing transformations in one expression (zoom, map, xform, "
     "subscripts, merges, make) gives readers and cursors that behave, for "
     "reading, watching and writing, exactly like the chain in which every "
     "intermediate step was stored as a reader or cursor of its own. This "
     "holds for every prefix at which the chain is cut.",
     ["programs", "inputs", "histories"],
     "all chains of up to N combinators of each kind, all places where the "
     "chain can be reified, all short histories of writes and commits",
     "the equivalence is over programs; tests have a few fixed expressions "
     "and never compare the two forms",
     a(["lager/with.hpp", "lager/detail/lens_nodes.hpp",
        "lager/detail/xform_nodes.hpp", "lager/detail/merge_nodes.hpp",
        "lager/cursor.hpp", "lager/reader.hpp"],
       [("with_expr / xformed / zoomed composition", "lager/with.hpp")],
       (), ["reader::get", "watch", "cursor::set"]),
     "Exhaustive over chains up to length 3 per kind of segment over a fixed "
     "alphabet of combinators (type-level programs, so instantiated at "
     "compile time).")

prop("C05", "Watchers belong to the reader object they were added to",
     "A watcher belongs to the reader object it was added to: it is called for "
     "changes of the value that object refers to, also after the object was "
     "assigned another reader, and never after the object was destroyed or "
     "unbound. Copying or moving a reader does not take its watchers along. An "
     "uninitialized reader or cursor throws on access instead of failing "
     "otherwise.",
     ["histories"],
     "all histories of construct, copy, move, assign, swap, watch, unbind, "
     "nudge, bind, destroy, write and commit over 2-3 handles up to a depth",
     "ownership errors show only in particular sequences of moves, copies "
     "and assignments (self-assignment, move onto a watched handle, ...)",
     a(["lager/watch.hpp", "lager/reader.hpp", "lager/cursor.hpp",
        "lager/state.hpp", "lager/detail/signal.hpp", "lager/detail/access.hpp"],
       [("watchable_base connection list", "lager/watch.hpp")],
       [("conns_", "connections of a handle", "lager/watch.hpp")],
       ["watch() callbacks", "exceptions"]),
     "Exhaustive within the bounds; calling bind or nudge on an uninitialized "
     "reader is outside the contract.")

prop("C06", "Watchers may act on readers while notifications are delivered",
     "A watcher may, while it runs, add watchers, disconnect, reassign, move "
     "or destroy any reader including its own, derive new readers, and write "
     "to other states. Every other watcher that is still connected is "
     "nevertheless called for the change exactly once, no removed watcher is "
     "called, and no memory error occurs.",
     ["histories"],
     "all small sets of connected watchers and all assignments of one action "
     "per watcher (connect, disconnect, reassign, destroy, derive, write)",
     "the combinations of which watcher does what to which other watcher "
     "during delivery are many; tests have none of them",
     a(["lager/detail/signal.hpp", "lager/watch.hpp", "lager/detail/nodes.hpp"],
       [("signal::operator() emission over an intrusive list",
         "lager/detail/signal.hpp"),
        ("garbage collection of children", "lager/detail/nodes.hpp")],
       (), ["watch() callbacks", "AddressSanitizer"]),
     "Exhaustive within the bounds, run under AddressSanitizer and UBSan.")

prop("C07", "Derived readers keep alive exactly what they need",
     "A reader or cursor stays valid and keeps following its sources for as "
     "long as it exists, even when the handles it was derived from are gone, "
     "and even when the state handle itself is gone. What no handle needs any "
     "more is released and is not recomputed by later commits.",
     ["histories"],
     "all histories of derive, drop, copy, destroy-root and write over a few "
     "handles up to a depth",
     "use-after-free and leaks need particular destruction orders",
     a(["lager/detail/nodes.hpp", "lager/detail/access.hpp",
        "lager/detail/merge_nodes.hpp", "lager/state.hpp"],
       [("parents owned by shared_ptr, children by weak_ptr",
         "lager/detail/nodes.hpp"),
        ("collect of expired children", "lager/detail/nodes.hpp")],
       (), ["reader::get", "calls of mapping functions",
            "destruction of captured tokens", "AddressSanitizer"]),
     "Exhaustive within the bounds; also run under AddressSanitizer with a "
     "smaller bound.")

prop("C08", "Filtering transducers keep readers at the last value that passed",
     "A reader transformed by a transducer that drops some inputs shows the "
     "image of the last committed input that passed (or a default constructed "
     "value, or throws no_value_error on construction when there is no default "
     "and nothing passed yet), everything derived from it follows that value, "
     "and watchers are called only when it changes. A cursor with a filter on "
     "its writes drops exactly the writes that do not pass.",
     ["inputs", "histories", "configurations"],
     "all graphs of up to N nodes with map, filter, merge and two-way filter "
     "combinators and all histories of writes and commits up to a depth",
     "the state of a filtered reader depends on the whole history of "
     "committed inputs; tests have two or three inputs each",
     a(["lager/detail/xform_nodes.hpp", "lager/with.hpp",
        "lager/detail/nodes.hpp", "lager/util.hpp"],
       [("xform_reader_node / xform_cursor_node", "lager/detail/xform_nodes.hpp")],
       (), ["reader::get", "watch", "cursor::set", "no_value_error"]),
     "Exhaustive within the bounds (1-2 roots, up to 3 nodes, histories of 2-6 "
     "operations); stateless transducers only.")

prop("C09", "Setter cursors show local writes until the store answers",
     "A cursor made with a custom setter shows a written value at once (after "
     "the commit, if transactional), calls its setter exactly once per write "
     "with the written value, and watchers see one change per change of the "
     "shown value. When the underlying reader then changes, the cursor and "
     "everything derived from it show the underlying value, whatever was "
     "written locally.",
     ["histories", "configurations"],
     "all histories of writes through the cursor and lenses on it, dispatches, "
     "commits and loop steps up to a depth, for all combinations of automatic "
     "and transactional stores and cursors, for synchronous and queued loops",
     "the interleavings of local writes with the store's delayed answers are "
     "many; tests write once",
     a(["lager/setter.hpp", "lager/store.hpp", "lager/detail/nodes.hpp"],
       [("setter_node::send_up / recompute", "lager/setter.hpp")],
       (), ["reader::get", "watch", "calls of the setter"]),
     "Exhaustive within the bounds (depth 6, thorough 7, five operations). "
     "update() on an uncommitted transactional setter cursor is unspecified.")

STORE = ["lager/store.hpp", "lager/context.hpp", "lager/effect.hpp",
         "lager/future.hpp", "lager/detail/nodes.hpp",
         "lager/event_loop/manual.hpp", "lager/event_loop/queue.hpp",
         "lager/event_loop/safe_queue.hpp"]

prop("C10", "A store reduces every dispatched action once, in dispatch order",
     "Every dispatched action goes through the reducer exactly once, on the "
     "latest model, in the order of dispatch as the event loop defines it "
     "(actions dispatched by reactions included). The new model is shown, and "
     "watchers are called once per change, at once for automatic stores and at "
     "the commit for transactional ones. An exception of a reducer reaches who "
     "runs the event loop and leaves the model as it was.",
     ["histories", "configurations"],
     "all histories of dispatches, commits and loop steps up to a depth, with "
     "reducers and effects that dispatch or throw, for the store tags and for "
     "three event loops",
     "reentrant dispatch, exceptions and delayed loops combine in more orders "
     "than tests sample",
     a(STORE, [("store_node::dispatch", "lager/store.hpp")],
       [("latest", "model to reduce next", "lager/store.hpp")],
       ["reader::get", "watch", "arguments of the reducer"]),
     "Exhaustive within the bounds (depth 6-12 by scenario); two reducer "
     "return conventions and the queued, manual and thread-safe queues.")

prop("C11", "Every effect runs exactly once, after its reduction, on the loop",
     "An effect returned with a result runs exactly once, after the model of "
     "that reduction became current and in the order of the reductions, with "
     "a context that dispatches to the same store and gives the store's "
     "dependencies. Converting or sequencing effects, contexts, results and "
     "stores (to other action types or fewer dependencies) preserves this, and "
     "empty effects run nothing.",
     ["histories", "configurations", "programs"],
     "all histories of actions whose effects dispatch, sequence, wait or "
     "throw up to a depth; all chains of conversions up to a length",
     "tests check single effects in fixed combinations; exactly-once must "
     "hold for every nesting and every conversion chain",
     a(STORE + ["lager/deps.hpp"],
       [("invoke_reducer / store_node::dispatch", "lager/store.hpp"),
        ("converting constructors and sequence()", "lager/effect.hpp"),
        ("converting constructors", "lager/context.hpp")],
       (), ["calls of effects", "dispatches from effects"]),
     "Exhaustive within the bounds (histories of depth 5-7, conversion chains "
     "of length 3-4).")

prop("C12", "The future of a dispatch is ready once its work is done",
     "The continuation of the future returned by dispatch() runs exactly once, "
     "on the event loop, after the action was reduced and its effects ran, "
     "including every future those effects returned and, through them, "
     "the actions they wait for. It does not wait for more than that.",
     ["histories", "configurations"],
     "all histories of dispatches whose effects dispatch, return futures, "
     "return promises fulfilled later or chain them, up to a depth",
     "the order of continuations depends on the nesting of effects and on "
     "the loop; tests have one or two nested dispatches",
     a(STORE, [("with_futures / dispatch returning future", "lager/store.hpp"),
               ("promise / future::then / also", "lager/future.hpp")],
       (), ["then() continuations"]),
     "Exhaustive within the bounds (depth 4-7).")

prop("C13", "Continuations of futures run exactly once, whatever the threads do",
     "A continuation attached to a future runs exactly once, on the loop of "
     "its promise, after everything the future waits for is fulfilled and "
     "never before (at once for a default constructed future). This holds for "
     "any nesting of then() and also(), any order of attaching and fulfilling, "
     "and when attaching and fulfilling happen on different threads.",
     ["histories", "schedules"],
     "all histories of then/also/fulfil/step over 2-3 promises up to a depth, "
     "and all interleavings (up to a preemption bound) of threads that attach, "
     "compose and fulfil",
     "tests are single threaded and have a few fixed orders; a lost or "
     "doubled continuation needs a particular interleaving",
     a(["lager/future.hpp"], [("promise_data, promise, future", "lager/future.hpp")],
       [("done_ / callbacks", "shared state of a promise", "lager/future.hpp")],
       ["calls of continuations", "data races"], None),
     "Sequential histories exhaustive to depth 6-9; threads explored by a "
     "controlled scheduler with happens-before race detection, 2-3 threads, "
     "preemption bound 2-3.",
     technique="stateless exhaustive exploration of the real code, for the "
     "threaded part under a controlled scheduler (preemption bounded, "
     "vector-clock race detection)")

prop("C14", "Events posted from any thread run exactly once, in order, on the loop",
     "Events posted to the thread-safe queue or the Boost.Asio loop from any "
     "thread run exactly once, on the thread that steps the loop, in the order "
     "each thread posted them. No event is lost or run twice when an event "
     "throws, when events post or dispatch further events, or when posting "
     "races with stepping, and no data race occurs.",
     ["schedules", "fault_sequences"],
     "all interleavings up to a preemption bound of producers and the owner, "
     "with events that post, dispatch or throw",
     "tests never run two threads against the queue in more than one order",
     a(["lager/event_loop/safe_queue.hpp", "lager/event_loop/boost_asio.hpp",
        "lager/store.hpp"],
       [("safe_queue_event_loop::post / step", "lager/event_loop/safe_queue.hpp")],
       [("queue_ / mutex_", "pending events", "lager/event_loop/safe_queue.hpp")],
       ["execution of posted events", "data races"]),
     "2-3 threads, a few operations each, preemption bound 2-3, all "
     "interleavings at synchronization and instrumented memory accesses.",
     technique="stateless exhaustive exploration of the real code under a "
     "controlled scheduler (preemption bounded, vector-clock race detection)")

prop("C15", "Every event loop runs each posted event once and in order",
     "The event loop adapters (manual, queue, safe_queue, Boost.Asio, Qt, QML, "
     "SDL) run every posted event exactly once, in the order of posting and "
     "never from within post() unless they are synchronous by design, and run "
     "async functions exactly once, on another thread, also when reached "
     "through the loop() of a context. finish(), pause() and resume() end, "
     "suspend and continue the loop in whatever order they are called.",
     ["histories", "configurations"],
     "all histories of posts (nested in events too), steps, loop controls and "
     "throwing events up to a depth, for each adapter",
     "adapters are tested by one or two posts each; SDL and Qt not at all in "
     "the order of their controls",
     a(["lager/event_loop/manual.hpp", "lager/event_loop/queue.hpp",
        "lager/event_loop/safe_queue.hpp", "lager/event_loop/boost_asio.hpp",
        "lager/event_loop/qt.hpp", "lager/event_loop/qml.hpp",
        "lager/event_loop/sdl.hpp"],
       [("post / async / finish / pause / resume", "lager/event_loop/")],
       (), ["execution of posted events", "return of run()"]),
     "Exhaustive histories on one thread against the real Qt, SDL and Asio "
     "libraries (offscreen/dummy drivers); foreign-thread posts to Qt at "
     "quiescent points only.")

prop("C16", "Dependencies keep their identity through merges and conversions",
     "Passing a set of dependencies on through any chain of copies, "
     "conversions to fewer or reordered dependencies and merges keeps every "
     "value: has() and get() give what was supplied, references refer to the "
     "original object, computed dependencies are computed at each access, and "
     "on a merge the later one wins. A missing optional dependency is reported "
     "by has() and throws on get().",
     ["programs", "inputs"],
     "all chains of copies, conversions and merges up to a length over a set "
     "of dependency lists (values, references, keyed, optional, computed)",
     "tests convert once; which value survives a merge followed by a "
     "conversion to optional or keyed dependencies is not sampled",
     a(["lager/deps.hpp"],
       [("deps_storage and conversion constructors", "lager/deps.hpp"),
        ("merge", "lager/deps.hpp")],
       (), ["deps::get", "deps::has", "missing_dependency_error"]),
     "Exhaustive over 12 dependency lists and chains of length 3 (thorough 4).")

prop("C17", "Lenses read and replace exactly their part of any value",
     "For every lens of the library and every composition of them (also "
     "type-erased, and lifted to optionals, pairs and tuples), view gives the "
     "part, set gives the whole with exactly that part replaced, and over "
     "replaces it by the image of what view gives. Where there is nothing to "
     "replace (absent key, empty optional, other alternative) or no value "
     "given, the whole comes back unchanged. This holds for constants, lvalues "
     "and temporaries alike, none of which is changed in place, for "
     "cursors zoomed by the lens, and however often a lens, or others made of "
     "it, were used before.",
     ["programs", "inputs"],
     "all chains of up to 3 lenses over a set of types, all values of a small "
     "domain for whole and part, all value categories and operations; all "
     "short histories of uses of a lens and of what is made of it",
     "tests apply a few compositions to lvalues; what composed lenses do with "
     "temporaries or missing parts depends on the combination",
     a(["lager/lenses.hpp", "lager/lens.hpp", "lager/lenses/at.hpp",
        "lager/lenses/at_or.hpp", "lager/lenses/attr.hpp",
        "lager/lenses/optional.hpp", "lager/lenses/tuple.hpp",
        "lager/lenses/unbox.hpp", "lager/lenses/variant.hpp",
        "lager/detail/lens_nodes.hpp"],
       [("view / set / over", "lager/lenses.hpp"),
        ("the lens combinators", "lager/lenses/")],
       (), ["view", "set", "over", "cursor::set", "cursor::get"]),
     "Exhaustive over the domain: 6 root types, some 400 chains, 3-10 values "
     "for whole and part. Overlapping parts in fan are excluded (documented).")

prop("C18", "The debugger records and replays history without side effects",
     "A store with with_debugger shows the model at the debugger's cursor: an "
     "action is reduced onto the shown model, drops the steps after the "
     "cursor, and becomes the last step; goto, undo and redo only move the "
     "cursor, within the recorded steps, and reduce nothing and run no "
     "effects. While paused, actions are kept and change nothing; resuming "
     "resumes the event loop and then reduces them and runs their effects in "
     "order, each once. This also holds for a debugger that debugs a "
     "debugger, and the server given to with_debugger sees the same model.",
     ["histories", "programs"],
     "all histories of actions (with and without effects, throwing) and "
     "debugger actions up to a depth, for automatic and transactional stores, "
     "stores with dependencies and futures, and nested debuggers",
     "tests dispatch one action; what time travel does with later actions, "
     "pending ones and effects depends on the history",
     a(["lager/debug/debugger.hpp", "lager/store.hpp"],
       [("debugger::update", "lager/debug/debugger.hpp"),
        ("with_debugger", "lager/debug/debugger.hpp")],
       [("debugger::model", "cursor, history, pending, paused",
         "lager/debug/debugger.hpp")],
       ["store::get", "model::lookup", "model::summary", "the reducer",
        "effects", "loop.pause / loop.resume", "the server's reader"]),
     "Depth 5-6 (meta: 4); thorough one more.")

prop("C19", "The tree debugger never loses or confuses a step",
     "With tree_debugger every reduced action adds exactly one step, the "
     "successor of the step that was shown, and shows it; the cursor of a "
     "step keeps meaning that step, with its action and model, whatever else "
     "is done, and the summary describes the same tree. Going to a cursor "
     "shows its step, going to one that does not exist changes nothing, and "
     "undo goes to the step that the shown one was reduced from.",
     ["histories"],
     "all histories of actions, gotos (every recorded cursor and several bad "
     "ones), undo, pause and resume up to a depth",
     "there are no tests; branches of branches only appear in histories that "
     "go back twice",
     a(["lager/debug/tree_debugger.hpp"],
       [("tree_debugger::model::append", "lager/debug/tree_debugger.hpp"),
        ("tree_debugger::update", "lager/debug/tree_debugger.hpp")],
       [("tree_debugger::model", "cursor, branches, pending, paused",
         "lager/debug/tree_debugger.hpp")],
       ["store::get", "model::lookup", "model::summary"]),
     "Depth 5-6. redo is not implemented by tree_debugger (it throws) and is "
     "left out.")

prop("C20", "The debugging server reports and controls the debugged store",
     "Over HTTP the debugging server reports the program, number of steps, "
     "cursor, pause and every step (action and model) of the store as it is, "
     "also before the first action; goto, undo, redo, pause and resume "
     "requests dispatch exactly that action to the store's event loop. Other "
     "requests are answered with an error and dispatch nothing; no file "
     "outside of the resources is served.",
     ["histories", "inputs"],
     "all histories of actions and requests up to a depth, over one or two "
     "connections, and all short sequences of odd requests",
     "there are no tests of the server",
     a(["lager/debug/http_server.hpp", "lager/debug/debugger.hpp"],
       [("the routes", "lager/debug/http_server.hpp"),
        ("detail::http::router", "lager/debug/http_server.hpp")],
       [("model_", "the model that is served", "lager/debug/http_server.hpp")],
       ["HTTP responses", "the event loop"]),
     "Depth 4 (thorough 5) over loopback; 25 odd requests, sequences of 3.")

prop("C21", "Values survive serialization, and damaged ones are refused",
     "Loading what was saved gives an equal value for every serializable type "
     "of the library (immer containers and boxes, tuples, variants, enums, "
     "structs of every kind, and their combinations), in text and binary "
     "archives, whatever the variable held before and whatever else is in "
     "the archive; to_json and from_json are inverse for structs, whose members "
     "go by their names (in camelCase if asked for), in any order. Truncated or "
     "changed data is refused with an exception, or gives a proper value; it "
     "never crashes, and repeated set elements or map keys are refused.",
     ["inputs"],
     "all pairs of values of small domains of 33 types in 4 archives, loaded "
     "over all values; all truncations and all changes of one JSON node",
     "tests save one value per type and load it into an empty variable",
     a(["lager/extra/cereal/immer_array.hpp", "lager/extra/cereal/immer_box.hpp",
        "lager/extra/cereal/immer_flex_vector.hpp",
        "lager/extra/cereal/immer_map.hpp", "lager/extra/cereal/immer_set.hpp",
        "lager/extra/cereal/immer_vector.hpp", "lager/extra/cereal/struct.hpp",
        "lager/extra/cereal/tuple.hpp", "lager/extra/cereal/enum.hpp",
        "lager/extra/cereal/variant_with_name.hpp",
        "lager/extra/cereal/json.hpp", "lager/extra/derive/cereal.hpp"],
       [("save / load / serialize", "lager/extra/cereal/")],
       (), ["the loaded value", "exceptions"]),
     "Exhaustive over the domains; truncations of the first 400 bytes, "
     "changes of the first 60 nodes.")

prop("C22", "Derived equality, hashes, members and names agree with the type",
     "For every struct declared with LAGER_STRUCT or LAGER_DERIVE two values "
     "are equal exactly if all members are, equal values have equal hashes "
     "and are found in sets, and the members are enumerated in order, each "
     "under its name, for reading and writing. For every LAGER_ENUM to_string "
     "and to_enum are inverse on the listed names and throw for anything "
     "else.",
     ["inputs"],
     "all pairs of values of small domains for plain, empty, nested and "
     "template structs; all names of enums, their prefixes and changes of one "
     "character",
     "tests compare one value with itself",
     a(["lager/extra/derive/eq.hpp", "lager/extra/derive/hash.hpp",
        "lager/extra/derive/hana.hpp", "lager/extra/derive.hpp",
        "lager/extra/struct.hpp", "lager/extra/enum.hpp"],
       [("LAGER_DERIVE", "lager/extra/derive.hpp"),
        ("LAGER_ENUM, to_string, to_enum", "lager/extra/enum.hpp")],
       (), ["==", "!=", "std::hash", "boost::hana::for_each / keys / at_key",
            "to_string", "to_enum"]),
     "Exhaustive over domains of up to 54 values per type.")

prop("C23", "Store enhancers compose, and thunks run like actions",
     "A store made with several enhancers has the contribution of each: the "
     "last reducer given decides the models and effects, the last of "
     "dependencies of one type is the one found, and tags and futures work in "
     "whatever place they are. A thunk dispatched to a store with with_thunk "
     "runs exactly once, in order among the dispatched actions, on the event "
     "loop, does not change the model, and can dispatch actions and find the "
     "dependencies given before with_thunk; the future of its dispatch ends "
     "when it and the future it returns do.",
     ["inputs", "histories"],
     "all histories of 6 (7) actions with four kinds of effects, five kinds "
     "of thunks, commits and runs of the loop, for 33 combinations of "
     "enhancers",
     "tests use one enhancer at a time, and one thunk per store",
     a(["lager/store.hpp", "lager/extra/thunk.hpp", "lager/deps.hpp",
        "lager/tags.hpp", "lager/context.hpp"],
       [("make_store, with_reducer, with_deps, with_tags, with_futures",
         "lager/store.hpp"),
        ("with_thunk", "lager/extra/thunk.hpp")],
       [("effect_t / action_t variant", "what was dispatched: a thunk or an action",
         "lager/extra/thunk.hpp")],
       ["get() and watch of the store", "lager::get", "effects and thunks",
        "futures of dispatch"]),
     "Manual and queue event loops; combinations of up to four enhancers.")

prop("C24", "Qt properties on readers and cursors show and announce every commit",
     "A property declared with LAGER_QT_READER, LAGER_QT_CURSOR or "
     "LAGER_QT_CONST can be read (and, a cursor's, written) under its name "
     "through Qt's reflection and QML, and always has the value of its reader. "
     "When a commit changes that value the NOTIFY signal comes exactly once, "
     "with the new value, and at that moment all properties of the object "
     "already show the new model; so QML bindings are never wrong, and never "
     "pass through values that mix two models. An object "
     "that is destroyed gets no more signals and leaves the others theirs.",
     ["inputs", "histories"],
     "all histories of 7 (8) writes of properties or the model, commits, and "
     "creations and destructions of up to 3 objects, and of 5 (7) "
     "writes in QML and C++ with QML bindings, for automatic and "
     "transactional states",
     "no test covers lager/extra/qt.hpp",
     a(["lager/extra/qt.hpp", "lager/watch.hpp", "lager/cursor.hpp",
        "lager/reader.hpp"],
       [("LAGER_QT_READER, LAGER_QT_CURSOR, LAGER_QT_CONST",
         "lager/extra/qt.hpp")],
       (), ["QObject::property, setProperty", "QMetaProperty",
            "the changed signals", "QML bindings"]),
     "One class of objects with 6 properties.")

prop("C25", "match visits the held values themselves, whatever kind of variant",
     "match calls, exactly once, the best fitting of the given functions for "
     "the alternatives that its variants hold, with the held objects "
     "themselves in the value category in which each variant was given, and "
     "changes nothing else; so also for types derived from a variant, at any "
     "place among their bases and at any depth. visitor, forward_variant, "
     "get_variant_t, is_variant, identity, noop and unwrap do what their names "
     "say for the same values.",
     ["inputs"],
     "all alternatives of one and two variants of four kinds in four value "
     "categories, with six sets of visitors; three variants",
     "tests visit a few variants, always as lvalues",
     a(["lager/util.hpp"],
       [("match, forward_variant, visitor", "lager/util.hpp")],
       (), ["the calls of the visitors and their arguments", "the results",
            "the variants after the call"]),
     "Exhaustive over the alternatives, kinds and categories.")
