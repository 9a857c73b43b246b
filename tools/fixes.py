"""(property, fragment of the commit subject, what failed)."""
FIXES = [
    ("O02", "every scheduled objection drain is started",
     "of several drops in one time slot only the first drain was started: the others never reached all-dropped"),
    ("O02", "during its drain cancels",
     "raising an objection again during its drain did not cancel the drain"),
    ("O02", "set_drain_time() stores",
     "set_drain_time(obj) stored the drain time for the wrong object"),
    ("O01", "clear() works while drains",
     "clear() crashed while drains were scheduled or running"),
    ("O02", "wait_for() waits for the next event",
     "wait_for() returned at once or hung when several processes waited on one object"),
    ("O03", "raised and dropped with tracing on",
     "with objection tracing on, any raise from below the top ended in an "
     "exception"),
    ("O03", "does not create further objections",
     "every drop to zero left new objection objects behind for good"),
    ("O03", "objections can be copied",
     "copying an objection ended in an exception"),
    ("O03", "table of objections shows each object once",
     "the printed table repeated the top and listed objects in order of "
     "raising"),
    ("O02", "does not depend on a context another",
     "a forked drain used a context object that another drain had recycled"),
    ("P02", "wait_for_state() returns at once",
     "wait_for_state() on a state already reached hung, and state changes could be missed"),
    ("P01", "a phase reaches every component even if",
     "a callback that walks the hierarchy made the phase skip components"),
    ("P03", "singletons of the run-time phases",
     "get() of the run-time phase singletons failed on the second call"),
    ("P03", "phases added next to another phase",
     "a phase added with/between others shared its neighbours' tables, corrupting the graph"),
    ("P01", "never misses that its predecessors are done",
     "a phase hung when a predecessor was done between creating and priming its wait"),
    ("P03", "function phases running in parallel",
     "two function phases in parallel waited for each other forever"),
    ("P03", "find() searches every branch",
     "find() looked only into the first branch of the phase graph"),
    ("S01", "item_done wakes the sequence",
     "finish_item() returned only at the driver's next request, or never, after item_done()"),
    ("S02", "waiting for a sequence to become relevant",
     "the sequencer crashed as soon as a waiting sequence was not relevant"),
    ("S03", "responses written to a sequencer's rsp_export",
     "responses a driver wrote to its rsp_port were silently dropped"),
    ("S03", "get_response(id) does not miss",
     "get_response(id) hung when its response arrived while another one was taken"),
    ("T08", "blocking transport mask is not",
     "a blocking transport port could be connected to a non-blocking put provider unnoticed"),
    ("T07", "UVMBlockingSlaveExport exists",
     "UVMBlockingSlaveExport could not be used: the public name did not exist"),
    ("T09", "non-blocking TLM2 initiator socket accepts",
     "a non-blocking initiator socket given an explicit implementation reported that it had none"),
    ("T09", "TLM2 pass-through sockets connect",
     "non-blocking pass-through sockets did not connect the backward path and hid mismatches"),
    ("R01", "adapters that provide responses",
     "with an adapter that provides responses the status and data of the request item were used"),
    ("R01", "predicting a register skips fields",
     "predicting with byte enables crashed or predicted fields of disabled lanes"),
    ("R01", "predictor assembles multi-access",
     "the predictor assembled registers of several bus words wrongly"),
    ("R01", "against its mirror ignores write-only",
     "checking a register with write-only fields reported false mismatches"),
    ("R02", "does not check the value of a read that failed",
     "mirror() compared the garbage of a failed read with the mirror"),
    ("R01", "check-on-read compares with the mirrored",
     "check-on-read compared with the desired value and reported false mismatches"),
    ("R01", "update() of an up-to-date register",
     "update() with nothing to do returned no status"),
    ("R01", "update() of a block with sub-blocks",
     "the status of a block update with sub-blocks was lost"),
    ("R01", "addresses of wide registers below two",
     "registers wider than the bus below two levels of submaps overlapped others"),
    ("R01", "writable through write-only maps",
     "fields of a register mapped write-only were treated as read-only"),
    ("C01", "objects with own callbacks also run",
     "an object with callbacks of its own did not run the type-wide ones"),
    ("C01", "type-wide callbacks can be added after",
     "adding a type-wide callback after an instance callback crashed"),
    ("C01", "without a callback type skips disabled",
     "iterating without a callback type returned disabled callbacks"),
    ("C01", "tells which value was returned",
     "uvm_do_callbacks_exit_on() lost the returned value"),
    ("M02", "only report catchers are asked",
     "a report crashed when its reporter had callbacks that are no catchers"),
    ("M02", "an action set by a report catcher",
     "the action a catcher set was replaced when it also changed the severity"),
    ("M02", "an exception in a report catcher",
     "after an exception in a catcher no catcher was asked any more"),
    ("M01", "UVM_RM_RECORD action can be recorded",
     "a report with the record action crashed"),
    ("M01", "show_verbosity does not crash",
     "showing the verbosity crashed every report"),
    ("M01", "obey the verbosity of the reporting",
     "the message macros used the root's verbosity instead of the reporter's"),
    ("C02", "given as regular expressions",
     "a scope given as a regular expression (/.../) never matched"),
    ("C04", "a glob matches whole names of fields",
     "a setting of a field also changed fields whose names contain its name"),
    ("C02", "repeating a configuration setting",
     "a repeated setting lost against older settings of other components"),
    ("C04", "applies the setting of highest",
     "automatic configuration applied the setting of lowest precedence"),
    ("C04", "fields of a derived class are not",
     "objects of a class could not be copied or configured once a derived class registered fields"),
    ("C02", "restricted to a type of value",
     "a lookup with a type never found anything"),

    ("K01", "pairs of built-in values can be",
     "comparing two pairs of built-in values raised an exception"),
    ("K01", "objects with different string fields",
     "comparing objects that differ in a string field raised an exception"),
    ("D01", "every transaction on a main stream",
     "only the first transaction of a component was recorded on its main stream"),
    ("D01", "links between recorded transactions",
     "establishing a link always reported a bad link and recorded none"),
    ("D01", "recorded child transaction is linked",
     "a child transaction recorded by itself was not linked to its parent"),
    ("D01", "database can be opened again",
     "recording after the database was closed wrote to a closed file"),
    ("D01", "recorder is closed once",
     "closing a recorder twice recorded two ends; freed recorders had handles"),
    ("D01", "file that cannot be opened",
     "a database file that cannot be opened raised an exception in the process that recorded"),
    ("D01", "file name of a text transaction",
     "setting the file name of the database raised an exception"),
    ("D01", "unset object fields can be recorded",
     "recording an object with an unset object field raised an exception"),
    ("D01", "related records can be linked",
     "linking related records raised an exception"),
    ("R03", "illegal memory accesses are stopped",
     "accesses outside a memory went on to the bus and raised an exception"),
    ("R03", "memories of a single word",
     "locking a model with a memory of one word divided by zero"),
    ("R03", "overlapping memories are reported",
     "overlapping memories raised an exception instead of a warning"),
    ("R03", "burst read returns the words",
     "a burst read could not be called with a buffer and returned no words"),
    ("R03", "failed transfer ends a burst",
     "a burst went on after a failed transfer and its status was forgotten"),
    ("R03", "loop over a pool visits its keys",
     "memories in a sub-block could not be accessed through the system map"),
    ("R04", "callbacks of a register run when it is written",
     "the callbacks of the last field ran instead of those of the register"),
    ("R04", "register and memory callbacks are awaited",
     "several callbacks around register accesses were created but never run"),
    ("R04", "callbacks of a field can follow and change",
     "predictions of a field with callbacks raised an exception or ignored them"),
    ("R04", "values changed by the post_read hooks",
     "a read value changed by a post_read hook was not the one returned"),
    ("R04", "mirroring through a foreign map",
     "mirror() through a map without the register left it locked for ever"),
    ("F01", "instance overrides by name are applied",
     "instance overrides by name did not exist on the factory, and its "
     "wildcard list was never applied"),
    ("F01", "lists the instance overrides of all types",
     "printing the factory showed the instance overrides of one type only"),
    ("F01", "does not change what the overridden type name stands for",
     "a type override by name also renamed the overridden type's entry, so "
     "later requests and lookups by that name found the other type"),
    ("F01", "accepts an override of a type by itself",
     "debugging creation by name reported a loop for an instance override "
     "of a type by itself"),
    ("F01", "without running off the list of overrides",
     "a loop of overrides behind a longer chain ended in an IndexError"),
    ("R05", "the reset test reads the registers of all blocks",
     "the reset test skipped registers of sub-blocks and read others twice"),
    ("R05", "report a failed access instead of failing",
     "a failed access in a built-in test ended it with a Python error"),
    ("R05", "NO_MEM_WALK_TEST, not NO_MEM_ACCESS_TEST",
     "a block marked NO_MEM_WALK_TEST was walked all the same"),
    ("S05", "a default sequence set for a phase of a sequencer is started",
     "default sequences never started"),
    ("S05", "killing a sequence stops it with its children",
     "a killed sequence ran on and blocked its sequencer"),
    ("M04", "returns whole plusargs and only UVM arguments",
     "get_plusargs cut off the values; any argument counted as a UVM one"),
    ("M04", "a malformed verbosity setting of the command line",
     "a malformed +uvm_set_verbosity broke the settings after it"),
    ("M04", "verbosity settings of the command line for a phase",
     "a phase's verbosity settings never took effect"),
    ("M04", "timed verbosity settings of the command line",
     "timed verbosity settings took effect at wrong times"),
    ("M04", "action and severity settings of the command line are checked",
     "malformed or combined actions and severities ended the run"),
    ("M04", "+UVM_TIMEOUT sets the timeout it gives",
     "+UVM_TIMEOUT ended in a Python error"),
    ("M04", "+uvm_set_type_override sets the type override",
     "+uvm_set_type_override was ignored"),
    ("M04", "+uvm_set_type_override finds the factory",
     "+uvm_set_type_override ended in a NameError"),
    ("M04", "+uvm_set_default_sequence sets the default sequence",
     "+uvm_set_default_sequence was ignored"),
    ("M04", "a malformed number of a command line setting",
     "a malformed number on the command line ended the run"),
    ("M04", "a regular expression finds command line arguments",
     "a regular expression matched only the start of an argument"),
    ("M04", "a maximum quit count of the command line can be made final",
     "+UVM_MAX_QUIT_COUNT=n,NO could still be overridden"),
    ("H01", "a search leaves a traversal of the children",
     "a search in the middle of a loop over the children of a component ended "
     "the loop early"),
    ("H01", "a search that finds nothing warns",
     "a search without a match ended in an exception instead of a warning"),
    ("H01", "printing leaves a traversal of the children",
     "printing the topology in the middle of a loop over the children ended "
     "the loop early"),
    ("X01", "sub-object given as an object can be",
     "an object whose random sub-object was given as an object could not be "
     "randomized"),
    ("X01", "draws its random values from its own state",
     "values drawn with inline constraints, or by an object with random "
     "sub-objects, depended on what other objects had drawn before"),
    ("X01", "are called once per randomization",
     "the callbacks before and after randomization were called twice"),
    ("R06", "wait for the user-defined backdoor of a register",
     "a register access by user-defined backdoor never ran the backdoor"),
    ("R06", "read the slices of an HDL path",
     "a backdoor read through an HDL path with slices ended in an exception"),
    ("R06", "memory peek and poke wait for the user-defined backdoor",
     "peek and poke of a memory never ran its user-defined backdoor"),
    ("R06", "callbacks of a user-defined backdoor run to completion",
     "callbacks of a user-defined backdoor were not run; data was decoded "
     "instead of encoded"),
    ("R06", "HDL paths given as [path, offset, size] lists",
     "HDL paths given as documented ended in an exception on access"),
    ("R07", "return the access policy of a memory in several maps",
     "UVMMem.get_access of a memory in two maps returned None: the memory access "
     "and walking tests took a read-only memory for a writable one"),
    ("R03", "concurrent accesses through one user frontdoor",
     "two accesses of a memory through its user frontdoor at a time ended in a "
     "fatal error"),
    ("R08", "moved or unmapped register leaves its old addresses",
     "old addresses still led to a register that had been moved or unmapped "
     "at run time; unmapping with 1 was ignored"),
    ("R09", "a copy of a register item has its own values",
     "a write behind an index wrote the index as data"),
    ("R09", "whose index cannot be written ends and says so",
     "after a failed index write the registers stayed locked and success was "
     "reported"),
    ("R09", "FIFO registers push each value once",
     "a write to a FIFO register was refused; an update wrote values repeatedly"),
    ("R09", "update of a FIFO register with nothing to write",
     "update with nothing to write gave no status"),
    ("R09", "an object can be copied more than once",
     "every second copy of a register item was empty: data was lost behind an "
     "index"),
    ("R09", "behind an index can have an address of its own",
     "building a table with a register that is mapped ended in an exception"),
    ("R09", "indirect data register leave it alone",
     "update and mirror of an indirect data register accessed an element"),
]
