#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so they stay readable)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

CB = "gel/collections/circular_buffer.c"
p("C01", "Ring buffer is an exact FIFO for one writer and one reader, any interleaving",
  "With one thread that only writes (single or bulk) and one that only reads, peeks or drops, under every interleaving of their steps the reader obtains exactly the elements the writer was told were accepted, in order: none lost, duplicated, reordered or invented. Every call finishes in a number of steps bounded by its own length and accepts or returns at least what was possible when it started. A fill level seen by the reader can be read at once in full and free space seen by the writer can be written at once in full.",
  ["schedules", "inputs"], "every interleaving, at single memory-access granularity, of any producer call sequence with any consumer call sequence, for any buffer size and chunk sizes",
  "The existing tests are single-threaded with one buffer size; no test runs a producer and a consumer together, so no interleaving at all is sampled.",
  [CB, "gel/collections/circular_buffer.h"],
  [("writer advances head only after copying", CB + ":circular_buf_puts/putc"), ("reader advances tail only after copying", CB + ":_circular_buf_get")],
  [("head", "next slot to write, owned by the writer", CB), ("tail", "next slot to read, owned by the reader", CB)],
  ["return values and data of put/get/peek/drop/size calls of both threads"])
p("C02", "Ring buffer is a bounded FIFO for every single-threaded history",
  "For every buffer size, element type and sequence of write, read, peek, drop, reset and query calls, the ring buffer behaves as a first-in-first-out queue holding at most size-1 elements. Bulk writes accept exactly min(requested, free) elements; bulk reads, peeks and drops cover exactly min(requested, stored); the empty, full, level and capacity queries always agree with the contents. Memory outside the buffer and the caller's slices is never touched.",
  ["histories", "inputs", "configurations"], "every call history, buffer size (1 up to beyond 65536), element type and chunk length, including exactly full, exactly empty and wrapped states",
  "Tests use one 64-byte buffer with head and tail advancing in lock step; full-and-wrapped states and most (head, tail, length) combinations never occur.",
  [CB, "gel/collections/circular_buffer.h"], [("chunked copies around the wrap", CB + ":circular_buf_puts,_circular_buf_get"), ("level from head and tail", CB + ":circular_buf_size")],
  [("head/tail", "positions in the caller's array", CB)], ["return values, data read back, redzones around the array"])
p("C03", "Concurrent writer and reader of a ring buffer never race",
  "While one thread writes a ring buffer and another reads it (both also using the queries documented as thread safe), no two conflicting memory accesses are unordered by synchronisation. An element's bytes are visible to the reader before the position that publishes it, and a slot is reused only after the reader's release of it is visible to the writer.",
  ["schedules"], "every interleaving of any producer and consumer call sequence; ordering judged by happens-before, not by what the host CPU happens to do",
  "Single-threaded tests cannot exhibit a race, and on x86 even a missing barrier is invisible without a happens-before detector.",
  [CB], [("acquire/release publication of head and tail", CB)], [("head/tail", "indices shared by both threads", CB)], ["every load, store and memcpy of the compiled library code (compiler instrumentation)"])
p("C04", "Typed queues are bounded FIFOs for every history and capacity",
  "A queue declared for any element type and any capacity from 1 to 32768 delivers every accepted element exactly once, in order of acceptance, and accepts an element exactly when fewer than its capacity are stored. Count, empty and full always agree with the contents, no matter how many elements have passed through the queue in total; refused operations change nothing.",
  ["histories", "inputs", "configurations"], "every history of enqueue, dequeue, drop and queries, of any length (past index wrap-around), for every capacity and element type",
  "Tests cover capacities 8 and 16 with fill-then-drain cycles only; the count query and other capacities are never exercised.",
  ["gel/collections/queue.h"], [("free-running read and write indices", "gel/collections/queue.h:QUEUE_DEFINITION")], [("read_idx/write_idx", "running positions", "gel/collections/queue.h")], ["results of the generated functions"])
p("C05", "Typed stacks are bounded LIFOs for every history",
  "A stack declared for any element type and capacity returns elements in last-in-first-out order, peek shows the element the next pop would return without removing it, and removing from the bottom drops exactly the oldest element keeping the order of the rest. Push fails exactly when full and pop/peek exactly when empty; failed operations change nothing and the empty/full queries always agree with the contents.",
  ["histories", "inputs", "configurations"], "every history of push, pop, peek, bottom removal and queries for every capacity up to 65535 and element type",
  "No test instantiates the stack at all; it is only parsed.",
  ["gel/collections/stack.h"], [("array with top index", "gel/collections/stack.h:STACK_DEFINITION")], [("idx", "number of stored elements", "gel/collections/stack.h")], ["results of the generated functions"])
p("C06", "Intrusive list holds exactly the sequence its operations describe",
  "After any sequence of insertions at the head, insertions at the tail and removals, iterating forwards gives exactly the expected elements in order and iterating backwards gives the reverse; removed elements can be inserted again. An iteration follows the list as it is at each step, when other elements are inserted or removed during it. The empty, is-last, next and previous queries agree with that sequence, and the object recovered from an embedded node is the one containing it.",
  ["histories"], "every history of list operations over any number of elements and several lists",
  "No test includes the list header; it is only parsed.",
  ["gel/collections/listx.h"], [("pointer splice on insert and delete", "gel/collections/listx.h:__list_add,__list_del")], [("next/prev", "ring of nodes through the head", "gel/collections/listx.h")], ["traversal results"])
EL = "gel/circular_event_log/circular_event_log.c"
p("L01", "Event log returns exactly the requested window of the newest events",
  "After any number of recorded events the log reports min(recorded, capacity) events, and a request for N events skipping the J most recent delivers exactly the min(N, total-J) events preceding those J, oldest first, and returns that number (0 when J exceeds the total), for any N and J however large. Nothing is written beyond the delivered events and storage is never addressed outside its capacity.",
  ["histories", "inputs"], "every number of recorded events (many wraps), every capacity, event size, N and J",
  "Tests use one capacity and random N, J strictly inside the stored range; requests beyond it, N as large as size_t allows, and other sizes are not sampled.",
  [EL], [("position arithmetic modulo capacity", EL + ":nth_last_event,circular_event_log_load_last_events")], [("next_position/full_circle", "write position and wrapped flag", EL)], ["storage callbacks (position, count) and the destination buffer"])
p("L02", "Event log stays exact when its storage fails",
  "When storing an event fails, the failure is returned, the event is not counted, every earlier event stays retrievable and the next attempt uses the same place. When storage fails during a read (an error, or nothing delivered) the caller gets the storage's result and never a positive count, and later requests are unaffected.",
  ["fault_sequences", "histories"], "every placement of save and load failures in every history, including failure of only the second half of a wrapped read",
  "The test storage never fails within range, so no failure path is executed.",
  [EL], [("state advanced only on success", EL + ":circular_event_log_new_event"), ("error propagation of both partial loads", EL + ":circular_event_log_load_last_events")], [], ["return values under injected storage errors"])
WL = "gel/wearleveling/wearleveling.c"
p("W01", "Wear-levelled memory survives a restart at any point",
  "Starting from uniformly erased storage, a read always returns the last value whose write was committed to storage. This stays true when power is lost at any point - between writes or during a write before its marker is stored - and the memory is initialised again from the storage contents alone, after any number of writes and for any number of blocks.",
  ["crash_points", "histories"], "every crash point in every write history (thousands of writes, past marker wrap-around), for every page size from 1 to 255 blocks, record length and erased marker value",
  "Tests never re-initialise after writing, so recovery of the last block is never exercised.",
  [WL], [("consecutive markers identify the newest block", WL + ":search_last"), ("next block written, then remembered", WL + ":wearleveling_write")], [("last_active_block/last_marker", "position of the newest record", WL)], ["simulated block device with power-cut points"])
p("W02", "Wear levelling spreads writes evenly and skips unchanged data",
  "Every write of a changed value programs exactly one block, so that at any time, including across restarts, no block of the page has been programmed more than once more often than any other. Writing the value already stored programs nothing.",
  ["histories", "inputs"], "every history of changed and unchanged writes and restarts, every page size and record length",
  "Tests compare one write count after a few writes and never look at which blocks were used or at restarts.",
  [WL], [("rotation to the next block", WL + ":NEXT_BLOCK"), ("compare before write", WL + ":wearleveling_write")], [], ["per-block program counters in the simulated device"])
p("W03", "Wear-levelled memory survives storage errors",
  "If reading or writing a block fails the call reports failure, the last committed value remains what is read (also after a restart) and a later retry succeeds normally. If the markers cannot be read at initialisation, initialisation reports the failure. No operation ever addresses a block outside the page.",
  ["fault_sequences", "histories"], "every placement of read, write and marker-read failures, with the failing write taking no effect, a torn data effect or full effect",
  "The test device never fails.",
  [WL], [("position moved only after a successful write", WL + ":wearleveling_write"), ("marker read error handling", WL + ":search_last,wearleveling_init")], [], ["return values and block numbers seen by the simulated device"])
SE = "gel/serializer/serializer.h"
p("S01", "Serialised integers round-trip with the documented byte order",
  "Every integer of every supported width is written as exactly its little- or big-endian bytes and read back unchanged, signed values included, and the reported size is the number of bytes touched; no other byte is read or written. The pack/unpack helpers agree with the functions for any target type wide enough.",
  ["inputs"], "every value of every width, signedness and byte order, at any buffer alignment",
  "Tests check one pseudo-random value per width, always round-trip so a consistently wrong byte order passes, and never a negative value of full magnitude.",
  [SE], [("shift-and-mask per byte", SE)], [], ["buffers around the encoded bytes"])
p("S02", "CRC functions equal their polynomial division for every message",
  "For every message, length and starting value the 16-bit CRC equals bitwise division by x^16+x^12+x^5+1 and the 32-bit CRC equals bitwise division by 0x04C11DB7 (both most significant bit first, no final inversion). Splitting a message anywhere and passing the intermediate CRC gives the same result as one call, and exactly the message's bytes are read.",
  ["inputs"], "every message content and length (empty to beyond 65536 bytes), initial value and split point",
  "No test calls either CRC.",
  ["gel/crc/crc16-ccitt.c", "gel/crc/crc32.c"], [("256-entry tables", "gel/crc/*.c")], [], ["returned CRC values"])
SC = "gel/scheduler/scheduler.c"
p("S03", "Serialised schedule entries round-trip in a fixed 11-byte layout",
  "Encoding any schedule entry writes exactly 11 bytes: enabled, days, start and end as little-endian 32-bit numbers, then the value's low byte; decoding those bytes restores every field (for values 0 to 255), and decoding any 11 bytes then encoding again reproduces them.",
  ["inputs"], "every entry content and every 11-byte string",
  "No test calls the scheduler.",
  [SC], [("field-by-field serialisation", SC + ":scheduler_entry_serialize,scheduler_entry_deserialize")], [], ["encoded bytes and decoded entries"])
DB = "gel/debounce/debounce.c"
p("D01", "Debounced inputs change exactly after debounce+1 consistent readings",
  "The filtered level of each input changes at exactly the call at which the raw input has differed from it for debounce+1 consecutive calls, and never otherwise; any reading equal to the filtered level restarts the count. Inputs never influence each other, initialising or forcing the levels starts counting afresh, and a call reports a change exactly when some level changed.",
  ["histories", "inputs"], "every raw input history on all 32 inputs at once, every debounce setting, with forced levels in between",
  "Tests drive one low input at a time with clean transitions; simultaneous inputs, input 31 and forcing mid-count are not sampled.",
  [DB, "gel/debounce/debounce.h"], [("per-input countdown", DB + ":debounce_filter_single")], [("debounce_count", "remaining confirming calls per input", DB)], ["filtered levels and return value of each call"])
PC = "gel/debounce/pulsecounter.c"
p("D02", "Pulse counters count every filtered pulse exactly once",
  "Each counter's filtered level follows its raw input after debounce+1 consecutive differing readings, and its count goes up by exactly one at each filtered falling edge (high pulses) or rising edge (low pulses) and at no other time; the call returns 1 exactly when some count went up. Counters never influence each other, clearing one affects only that count, and initialisation starts all of them afresh whatever the structure held before.",
  ["histories", "inputs"], "every raw input history on all 32 counters, both polarities, every debounce setting, prior memory content and initial level",
  "Tests reuse one zeroed static structure, one input at a time, debounce 0 and 1, clean pulses.",
  [PC, "gel/debounce/pulsecounter.h"], [("per-input countdown and edge test", PC + ":pulse_filter")], [("filters/count", "countdown and pulse count per input", PC)], ["levels, counts and return value of each call"])
KP = "gel/keypad/keypad.c"
p("K01", "Keypad events follow the press/click/long-click/release protocol",
  "For every input history, each key's events follow the protocol: a press first; click only after press; repeats only after the click (pressing) or long click (long press) they repeat; long click at most once per press; release last and only once per press, a key pressed again before its release starting over with a press. From a key's press until its release no other key produces an event, each call produces at most one, and holding events occur only while the input equals that key's pattern, release only when it does not. The state a key is asked for is pressed from its press as long as its pattern is shown, and not pressed once it is let go, released or reset. Resetting returns every key to idle silently.",
  ["histories", "inputs", "configurations"], "every history of input patterns (including combinations and patterns of no key), timestamps and timing parameters, any set of keys in any order",
  "Tests replay about ten scripted scenarios with one fixed key table.",
  [KP], [("key selection loop and per-key event chain", KP + ":keypad_routine")], [("lastevent/value/oldvalue", "per-key protocol state", KP)], ["event and code returned by each call"])
p("K02", "Keypad events are timed exactly by the configured durations",
  "With click time not longer than long-click time: click is reported at the first call more than the click time after the press while held, long click at the first call more than the long-click time after the press (after click), and the repeating events at the first call more than the period after the previous click or repeat. Release is reported at once if the key goes up before its click, otherwise at the first call more than the click time after it went up. This holds across timestamp wrap-around.",
  ["histories", "inputs"], "every input history, call spacing, timing parameters and starting timestamp including wrap-around",
  "Tests use a handful of fixed timestamps starting near zero.",
  [KP, "gel/timer/timecheck.h"], [("strict expiry tests against time of last change and last repeat", KP + ":keypad_routine")], [("time_state/time_period", "reference instants", KP)], ["event stream against an executable model"])
TC = "gel/timer/timecheck.h"
p("T01", "Timestamp comparison is correct across wrap-around for every type",
  "For any two instants less than half the timestamp range apart, before/after comparisons give their true order and the interval is their true distance, wherever the counter wraps. A delay counts as expired exactly from its end instant on (loose) or strictly after it (strict). This holds for every configured unsigned timestamp type.",
  ["inputs", "configurations"], "every pair of instants and delay below half the range, every unsigned timestamp type (8 to 64 bits)",
  "The comparison tests are not even built here and sample one type and a dozen points.",
  [TC], [("modular difference", TC + ":time_after,time_interval,is_loosely_expired,is_strictly_expired")], [], ["comparison results"])
SW = "gel/timer/stopwatch.c"
p("T02", "Stopwatch elapsed time is exactly the time spent running",
  "For every sequence of start, pause, stop, restart, set, change and query calls with advancing timestamps (wrapping included, each run shorter than half the timestamp range), the elapsed time equals the total time spent running since the last stop plus any preset, paused time excluded; remaining time is the period minus that, never below zero. A period can be set only while stopped, illegal transitions (start while running, pause while not running, stop while stopped) return -1 and leave the state unchanged, and while running or paused the timer counts as reached exactly when elapsed has arrived at the period.",
  ["histories", "inputs"], "every call history and timestamp sequence, with wrap-around anywhere",
  "Tests use a few scripted sequences and one random pause/start walk starting at time 0.",
  [SW], [("accumulate on pause, interval while counting", SW)], [("starting_time/elapsed_time/total_time/state", "stopwatch state", SW)], ["results of the query calls"])
TM = "gel/timer/timer.c"
p("T03", "Timers fire exactly once per elapsed period",
  "A timer's callback runs, exactly once, at the first servicing call at which it has been running (pauses excluded) for at least its period since it was armed, reset, reloaded or given a new period (runs and periods shorter than half the timestamp range); a one-shot timer then stays silent until armed again (initialised anew, or resumed, which starts its period over) and an auto-reloading one starts a new period at that call; a callback may switch its own timer between the two, and may make any call on other timers. Stopped timers and timers paused before their period elapsed never fire; each callback receives its own timer, the caller's pointer and the registered argument.",
  ["histories", "inputs"], "every history of arm, reset, pause, resume, stop, period change, autoreload change and servicing with advancing timestamps, several timers side by side",
  "No test calls the timer module.",
  [TM, SW], [("fire, then stop or restart", TM + ":gel_timer_manage_callback")], [("autoreload/stopwatch", "timer state", TM)], ["callback log"])
p("H01", "Scheduler picks the right active entry at every instant",
  "At every weekday and second the reported active entry is enabled, lists that weekday and its interval [start, end) contains the time of day (an end beyond midnight extends it past 24:00); none is reported exactly when no entry qualifies. If several qualify, one with the smallest total weekly duration is chosen and, among equals, one with the greatest value.",
  ["inputs", "configurations"], "every set of entries, every second of the week, every number of entries; the after-midnight part is judged for entries listing all days",
  "No test calls the scheduler.",
  [SC], [("linear scan with best-so-far", SC + ":scheduler_get_active_entry_number,is_entry_active")], [("entries", "schedule table", SC)], ["returned entry number"])
p("H02", "Schedule queries agree with the active entry",
  "At every instant the is-active query, the current value, the set of active entries and the remaining time all agree with the schedule: the value is that of the active entry, the set contains exactly the enabled entries active now, and remaining time is the number of seconds until the entry's end, also after midnight, and zero when inactive. An entry's duration is the time from its start to its end. Entry access by index returns what was stored and rejects indices beyond the table; searches for enabled and free entries return the first such index or -1.",
  ["inputs", "histories"], "every set of entries, every second of the week and every index",
  "No test calls the scheduler.",
  [SC], [("shared activity test", SC + ":is_entry_active"), ("bounds checks", SC)], [("entries", "schedule table", SC)], ["query results"])
p("H03", "Overlap detection never misses a clash",
  "For entries that end by midnight, a candidate entry is counted as overlapping every enabled entry with which it shares a weekday and at least one instant, and never one with which it shares no weekday or from which it is separated by a gap, nor a disabled one.",
  ["inputs"], "every candidate and every table of entries (touching endpoints are left open)",
  "No test calls the scheduler.",
  [SC], [("endpoint-inclusion test", SC + ":scheduler_are_there_overlapping_entries")], [], ["returned count"])
PA = "gel/parameter/parameter.c"
p("P01", "Stepping a parameter stays in range and wraps to the opposite limit",
  "Stepping a parameter of any numeric type by any number of steps up or down yields value + steps*step when that exact result lies within its limits, and otherwise the minimum when stepping up and the maximum when stepping down, even if the exact result does not fit the type. Limits may be constants or live variables; a value within limits never leaves them and no other memory changes.",
  ["inputs", "histories"], "every type, limits, step, starting value and step count",
  "One test steps one uint32 parameter between 0 and 10.",
  [PA], [("checked arithmetic and limit comparison", PA + ":APPLY_OPERATOR")], [("pointer/min/max/step", "parameter handle", "gel/parameter/parameter.h")], ["the stored value after each call"])
p("P02", "Range check repairs exactly the corrupted parameters",
  "Checking a table replaces by its default exactly each value outside its limits (a NaN counts as outside; limits and default are those in force after the parameter's runtime hook has run), whatever its type or access level, leaves all others untouched, and returns how many it replaced, so a second check returns 0 when the defaults lie within limits. Resetting gives every parameter its default.",
  ["inputs"], "every table of parameters of all types with any stored bit patterns, constant or live limits",
  "One test corrupts four parameters with ordinary values.",
  [PA], [("per-type comparison", PA + ":CHECK_RANGE,parameter_check_ranges,parameter_reset_to_defaults")], [], ["stored values and the returned count"])
p("P03", "Parameter visibility is consistent between counting and lookup",
  "For every table and access mask, the number of parameters counted equals the number that can be looked up by index, and index n yields the n-th visible parameter in table order, nothing beyond the count. A parameter is visible exactly when its access level is zero or shares a bit with the mask, judged after its runtime hook has run.",
  ["inputs", "configurations"], "every table, access levels and mask, with runtime hooks that change visibility",
  "No test counts or looks up parameters with an access mask.",
  [PA], [("access-level filter", PA + ":parameter_get_handle,parameter_get_count")], [("access_level", "bit mask, 0 = free access", "gel/parameter/parameter.h")], ["counts and handles returned"])
p("P04", "Parameter conversion and copying preserve the value",
  "Converting an integer parameter to long gives its exact value whenever a long can hold it, negative values included; the boolean and index conversions agree with it for non-negative values, the textual form is that of the stored value and the number of selectable values is max-min+1 (for real parameters: where both limits are whole numbers). Cloning a parameter onto new storage or copying between parameters of the same type reproduces the value bit for bit, copies nothing else, and copying between different types is refused without effect.",
  ["inputs"], "every type, value and limits",
  "No test converts, clones or copies a parameter.",
  [PA], [("per-type switches", PA + ":parameter_to_long,parameter_to_index,parameter_clone,parameter_copy_value,parameter_get_total_values")], [], ["results and destination memory"])
p("P05", "Declared parameter limits are enforced exactly as written",
  "For every numeric type, the minimum, maximum, default and step given in a parameter declaration (either declaration form, negative and full-width values included) are exactly the ones later enforced by stepping, range checking and resetting.",
  ["inputs", "configurations"], "every type and every limit representable in it, for both declaration forms",
  "Tests declare only small non-negative limits, which survive truncation.",
  ["gel/parameter/parameter.h", PA], [("type-generic initialisers", "gel/parameter/parameter.h:_PARAMETER_LIMIT_VALUE_OPTION,PARAMETER_C99")], [], ["behaviour of the declared parameters at and around their limits"])
WA = "gel/data_structures/watcher.c"
p("V01", "Watchers report every change of watched memory exactly once",
  "A processing call returns 1 exactly when some watched location differs from its content at the previous processing, clearing or initialisation, and for each differing location without delay runs that location's callback exactly once with its address and user pointer; unchanged locations trigger nothing. A change that a running callback makes to another watched location is not lost: the same call or the next one reports it, once. The check-only query gives the same answer without consuming anything, clearing discards pending changes silently, and triggering runs callbacks on demand.",
  ["histories", "inputs"], "every list of watched locations of any size, every history of modifications of any byte, checks, clears and triggers",
  "Tests change one variable once.",
  [WA], [("byte-wise comparison with a saved copy", WA + ":watcher_process_changes,watcher_check_for_changes,watcher_clear_changes")], [("old", "saved copy of the watched bytes", "gel/data_structures/watcher.h")], ["callback log and return values"])
p("V02", "Delayed watchers fire once, only after the quiet period",
  "For a location with a delay, a detected change does not run the callback at once; it runs exactly once at the first processing call at which the location has been seen unchanged and the delay has passed since the last detected change, each further change restarting the delay. Clearing cancels a pending notification, and all this holds across timestamp wrap-around.",
  ["histories", "inputs"], "every modification history, delays, call spacing and starting timestamp including wrap-around",
  "One test follows a single delayed variable through four timestamps.",
  [WA, TC], [("moved flag and timestamp", WA + ":watcher_process_changes")], [("moved/timestamp", "pending notification", "gel/data_structures/watcher.h")], ["callback log"])
p("U01", "Structure updates change exactly the selected bytes",
  "Applying an update makes the selected field (or the first n elements of an array field) equal to the value recorded when the update was created, whatever happened to its source since, and changes no other byte of the target; applying it again or to another instance does the same. Freeing an update releases everything it held.",
  ["inputs", "histories"], "every field offset, size and value, array length expression, and order of create, mutate source, apply and free",
  "One test applies four scalar updates once, and the array form is commented out.",
  ["gel/data_structures/struct_update.c", "gel/data_structures/struct_update.h"], [("heap copy of the value", "gel/data_structures/struct_update.c")], [("data/offset/size", "recorded change", "gel/data_structures/struct_update.h")], ["target bytes and heap balance"])
p("U02", "Optional values obey the option laws",
  "An optional built from a value is present and yields that value; an empty one yields the given default. Mapping or binding applies the function exactly once to a present value and never to an empty one, which stays empty; composition laws (identity, map fusion, left/right identity and associativity of bind) hold for every value and function.",
  ["inputs"], "every value of the wrapped type and every function",
  "Tests check two values of two types and never call map or bind.",
  ["gel/data_structures/maybe.h"], [("nothing flag", "gel/data_structures/maybe.h:MAYBE_DEFINITION")], [], ["results and call counts of the supplied functions"])
p("M01", "State machines dispatch each event once and move only when told to",
  "Sending an event calls exactly once the handler of the current state, with the given model and event, and no other handler. A non-negative result becomes the new state and is reported as 1; a negative result leaves the state unchanged and is reported as 0. This also holds for an event that a handler sends before it answers, for tables whose handlers change between events and for a machine that is started over.",
  ["histories"], "every transition table and event sequence",
  "No test includes the state machine header.",
  ["gel/state_machine/state_machine.h"], [("handler table indexed by state", "gel/state_machine/state_machine.h:DEFINE_STATE_MACHINE")], [("state", "current state", "gel/state_machine/state_machine.h")], ["handler call log"])
PI = "gel/pid/pid.c"
p("G01", "PID output equals the windowed PID formula for every input history",
  "The proportional part is Kp times the current error (set-point minus input); the integral part is Ki times the sum of the last N recorded errors since the last clear, where an error at or over its enabled threshold counts as zero; the derivative part is Kd times the change against the error D readings ago (or the oldest known), zero with fewer than two readings or when the error exceeds its enabled threshold. The output is their sum; clearing on error sign change happens exactly when enabled, and initialisation forgets everything.",
  ["histories", "inputs", "configurations"], "every history of inputs (zero errors included), set-points, gains, thresholds and clears, every window size",
  "Tests follow a few short scripted histories with one window configuration.",
  [PI], [("ring of recorded errors", PI + ":pid_add_input,pid_compute_i,pid_compute_d")], [("history/derivative_history", "error windows", PI)], ["computed parts after every input"])
PM = "gel/pagemanager/page_manager.c"
p("N01", "Every page is created, opened, closed and destroyed exactly as paired",
  "In every navigation history each entered page is created exactly once before it is opened, opened and closed strictly alternately, and destroyed at most once - after being closed, and never while it can still be returned to; pages leaving the navigation for good are destroyed, and after a rebase or a failed reset no earlier page remains undestroyed. At any moment at most one page is open. Every callback gets the data its own creation returned and its own extra argument.",
  ["histories", "configurations"], "every navigation history within the configured depth, from a freshly initialised manager over any prior memory content, with pages that omit any optional callback, with assertions enabled or disabled",
  "The page manager test does not compile at the pinned commit, and covers two scripted histories.",
  [PM, "gel/pagemanager/page_manager.h"], [("navigation stack of page records", PM)], [("page_stack/current_page", "navigation state", PM)], ["page callback log"])
p("N02", "Navigation always lands on the expected page",
  "Events and updates go to exactly the current page: the last one entered or swapped in, or after going back the one below it; going back from the bottom page does nothing. Resetting to an identifier returns to the nearest earlier page with it, or reports not found and leaves no current page; rebasing leaves the new page alone on the stack, and the results of the page's own callbacks are returned to the caller.",
  ["histories", "configurations"], "every navigation history within the configured depth, with assertions enabled or disabled",
  "The page manager test does not compile at the pinned commit, and covers two scripted histories.",
  [PM, "gel/pagemanager/page_manager.h"], [("navigation stack of page records", PM)], [("page_stack/current_page", "navigation state", PM)], ["which page's event and update callbacks run, and their results"])
ALL = ["gel"]
p("X01", "Valid use never causes undefined behaviour or memory errors",
  "No sequence of documented calls with valid arguments makes the library read or write outside the objects it was given, use freed memory, or execute undefined arithmetic, shifts or conversions, in any module and for any supported configuration.",
  ["inputs", "histories", "configurations"], "every call history of every module within the documented preconditions, at several optimisation levels and two compilers",
  "Tests run without sanitizers and keep away from boundary values.",
  ALL, [("bounds and width handling in every module", "gel/*/*")], [], ["AddressSanitizer and UndefinedBehaviorSanitizer reports over all workloads"])
p("X02", "Behaviour never depends on what memory held before initialisation",
  "After the documented initialisation of an object, every result is independent of the previous content of the memory it occupies: no module reads a value that was never written.",
  ["inputs", "histories"], "every prior memory content and every call history of every module with an initialisation function",
  "Tests use static, zeroed objects, so missing initialisation is invisible.",
  ALL, [("init functions", "gel/*/*_init")], [], ["MemorySanitizer reports and equality of observation digests over several fill patterns"])
p("X03", "Separate objects never interfere, even from different threads",
  "Objects of the library are independent: using any number of them side by side, from one thread or from several threads each owning its objects, gives every object the same results as if it were alone. The library keeps no hidden shared mutable state.",
  ["schedules", "histories"], "every interleaving of call histories on distinct objects, across threads",
  "Tests use one object at a time in one thread.",
  ALL, [("all state lives in caller-provided structures", "gel/*/*")], [], ["ThreadSanitizer reports and equality with single-threaded results"])
p("X04", "Results do not depend on compiler, optimisation or target conventions",
  "Every module gives identical results whether compiled by GCC or Clang, at any optimisation level, with assertions enabled or disabled, with signed or unsigned plain char and with short or full-size enumerations.",
  ["configurations", "inputs"], "every such build configuration crossed with every call history",
  "The tests are built one way only (GCC, -O0, signed char, assertions on).",
  ALL, [("no reliance on implementation-defined conventions or on assert side effects", "gel/*/*")], [], ["digest of all observed results per build"])
p("X05", "The library depends on no dynamic memory, clock, output or other service",
  "Every operation works on the memory it is given alone: no call obtains dynamic memory except creating a structure update, initialising watchers where malloc is declared available, and initialising a scheduler with a dynamic table; and no call ever prints, reads the clock, the environment or a random source, opens files, waits, raises signals or ends the process (a failed assertion apart), whatever its arguments and history.",
  ["inputs", "histories", "configurations"], "every call of every module, with any arguments, history and configuration",
  "Tests look at results; a stray allocation, message or clock reading on a rare path leaves them unchanged.",
  ALL, [("APIs working on caller-provided structures (README: zero dependencies)", "gel/*/*")], [], ["calls leaving the library for an allocator or another service of the environment"])
p("X06", "Every guarantee also holds on 32-bit targets",
  "All the guarantees of the library hold unchanged where int, long, size_t and pointers are 32 bits wide (the microcontrollers it is written for): 64-bit values are never cut to the width of a long or of an index in arithmetic, comparisons, serialisation, text or truth value, clocks of type unsigned long wrap around at 2^32 without a wrong verdict, and sizes and counts near the limits of size_t cause no overflow, undefined behaviour or write outside the caller's memory.",
  ["inputs", "histories", "configurations"], "every call history of every module in a program whose long, size_t and pointers have 32 bits",
  "The tests are built for the 64-bit host only, where long and size_t hold any 64-bit value.",
  ALL, [("fixed-width and machine-width integers side by side", "gel/*/*")], [], ["results of the same workloads and models in 32-bit programs"])
p("X07", "Calls take a fixed amount of stack; single-element calls a fixed time",
  "No call needs an amount of stack that grows with what is stored, asked for, configured or has happened before: there is no recursion over elements and no local copy of a buffer, list, table or request (the page-verified write of wear levelling, which keeps a copy of the value, apart), so that 2 KB below the caller are enough for any call (12 KB where numbers are formatted by sprintf). And the calls that work on one element take a time that does not grow with the number of elements stored or with the object's capacity: put, get, size and tests of circular buffers; enqueue, dequeue, count and tests of queues; push, pop, peek and tests of stacks; insertion, removal and tests in lists; adding an event to a log; queries and single triggers of timers, stopwatches and watchers; single-signal debouncing; conversion of one parameter; sending one event to a page or state machine.",
  ["inputs", "histories", "configurations"], "every call of every module, with any arguments, history, contents and configured capacity",
  "Tests run on a host with megabytes of stack and few elements; a recursion or an array of the size of the request goes unnoticed.",
  ALL, [("iterative algorithms over memory of the caller (README: for embedded systems)", "gel/*/*")], [], ["stack pointer and touched stack memory below each call", "basic blocks executed per call"])
p("X08", "Questions change nothing: what is asked or handed over is only read",
  "A call that only answers a question (sizes, tests, levels, states, elapsed and remaining times, controller outputs, schedule and parameter queries, peeking, walking a list, checking for changes, reading a log or a wear-levelled memory, delivering an update or event to a page) writes neither to the object it is asked about nor to anything it refers to - not even for a moment or with the value already there - and asked again gives the same answer. Data handed over as input (elements and events being stored, messages, bytes being decoded, values being written or recorded, watched memory, tables of handlers, parameter descriptions and their limits) is only read. So both may lie in read-only memory, be shared with an interrupt or another thread, and be asked at any time.",
  ["inputs", "histories", "schedules"], "every query and input of every module in every state of the object",
  "Tests compare results, and a value written back or put right again before the call returns leaves no trace in them.",
  ALL, [("queries", "gel/*/*"), ("const parameters and queries documented as thread safe", "gel/*/*.h")], [], ["faults of writes to memory that is write-protected during the call", "answers to repeated questions"])
p("X09", "A refused or failed call is as if it had never been made",
  "A call that is refused (storing in something full, taking from or looking at something empty, an index or input number out of range, a stopwatch or timer operation its state does not allow, copying between parameters of different types, going back from the bottom page, an event its handler declines, initialising a circular buffer without storage, a circular-buffer or parameter call given no object) or that fails because storage answers with an error (adding or loading events, reading or writing wear-levelled memory) says so where it returns a result, writes nothing to the caller's output where it is refused, and leaves every later result, callback and stored value exactly as if it had not been made.",
  ["inputs", "histories", "fault points"], "every history of an object and every place in it where calls are refused or fail",
  "Tests check the answer of a refused call, not that everything afterwards goes on as without it.",
  ALL, [("operations that return an error, and the ones ignored in some states", "gel/*/*")], [], ["results, callbacks and stored values of two objects with the same history, one of which gets refused and failing calls in addition"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
