#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe_at=None):
    a={"files":files,"mechanism":mechanism}
    if observe_at: a["observe_at"]=observe_at
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
TP=["include/gul14/ThreadPool.h","src/ThreadPool.cc"]

p("T01","Every accepted task runs exactly once and its outcome reaches the caller",
 "A task accepted by a thread pool is executed exactly once unless it is canceled or the pool is destroyed before the task starts, and in those cases it is executed zero times. The handle delivers precisely the value or the exception that this one execution produced, and everything the task wrote is visible to a caller that obtained the result. Asking for the result of a task that will never run ends with an error instead of blocking forever. All of this holds for any callable and result type: constant, mutable or move-only callables with or without the pool as argument, and results that are void, values, move-only objects or references.",
 ["schedules","programs"],"all interleavings of client threads, workers and the clock; all client programs of add, cancel, wait and destroy operations",
 "The tests run each operation under whatever schedule the OS happens to pick; double execution, loss of a task or of a result needs a particular interleaving of client, worker and timer.",
 TP,"pending queue guarded by one mutex, tasks wrapped in packaged_task with the future kept by the handle","TaskHandle::get_result")
p("T02","Tasks start in order of addition and never before their start time",
 "Whenever a worker picks up a task, it takes the earliest added one among all pending tasks whose start time has been reached, so that a pool with one thread executes immediate tasks strictly serially in the order in which they were added. No task starts before its requested start time or before its requested delay has elapsed, no matter how long or short (even negative) these are. Tasks that are not yet due never hold back tasks that are.",
 ["schedules","programs"],"all interleavings and clock advances; all mixes of immediate and delayed tasks added by clients or by tasks",
 "Tests check one order of 100 immediate tasks and a few delayed tasks in real time; they cannot place the clock advance and the insertions at every possible point.",
 TP,"linear search for first due task under the lock","task execution order")
p("T03","A due task never waits while a worker is idle, and no call blocks forever",
 "When a task is due and fewer tasks are running than the pool has threads, the task gets started without needing any further client call, even if all running tasks block indefinitely. No sequence of pool operations issued by clients or from inside tasks leads to a deadlock, lost wakeup or livelock. This includes operations issued by the destructors of the callables that have been handed to the pool.",
 ["schedules","programs"],"all interleavings, notification targets, timeouts and spurious wakeups; all programs of adds, delayed adds, cancels and blocking tasks",
 "A lost wakeup manifests only if the notification reaches a particular waiter at a particular moment; the tests poll until something happens and tolerate any delay.",
 TP,"condition variable with timed waits for the next start time, one notification per added task","task start while another task blocks")
p("T04","Cancellation is exact: a canceled task never runs, a started task is unaffected",
 "Canceling a task through its handle returns true if and only if that very task was still waiting, and then the task never runs, does not count against the capacity anymore, and is reported as canceled. If the task is running or has finished, canceling returns false and has no effect: its result and its state remain available. Canceling all pending tasks removes exactly the waiting tasks and returns their number.",
 ["schedules","programs"],"all interleavings of cancel calls with workers and other clients, from client threads and from tasks",
 "Tests cancel tasks only at moments where the state is settled (worker busy, task pending); the races between taking, running, finishing and canceling are never forced.",
 TP,"erase from the queue under the lock, handle keeps the future","TaskHandle::cancel, cancel_pending_tasks, get_state, is_complete, get_result")
p("T05","Pool and handle status queries always agree with one consistent task history",
 "At every moment, each task is in exactly one of the states pending, running, complete or canceled, and every query of a handle reports these in order without ever going back; a finished task stays complete, also after its result was fetched. The pool's pending count, pending and running names, full flag and idle flag each reflect one instant of that same history: the number of waiting tasks never exceeds the capacity, adding to a full pool throws and changes nothing, and an idle pool has neither waiting nor running tasks. Neither adding a task nor any of the queries waits for tasks or for time to pass. Thread counts or capacities of zero or beyond the documented maxima are rejected when creating a pool.",
 ["schedules","programs","configurations"],"all interleavings of queries with additions, execution, cancellation; all small capacities and thread counts",
 "Tests query in settled states only; a query between two updates of the bookkeeping needs a specific preemption.",
 TP,"pending list, running id and name lists under one mutex","count_pending, is_full, is_idle, get_state, get_*_task_names")
p("T06","Destroying a pool finishes running tasks, drops waiting ones and leaves nothing",
 "Destroying a pool blocks until every task that already started has finished, and starts no further task once the destruction has begun and the worker has observed it; after the destructor returns no task code runs and no pool thread exists. Tasks that never started are dropped with their callables destroyed exactly once, their handles report an error instead of a result, and all other handle functions remain usable or throw a logic error. No memory of the pool is accessed after its destruction and none is leaked. If a pool cannot be created because a thread cannot be started or memory is lacking, the creation ends with an exception, and the threads started so far have ended by then.",
 ["schedules","programs"],"all points in all interleavings at which the last owner drops the pool",
 "Tests destroy a pool in a settled state; use-after-free, leaks or missing joins need destruction at a specific moment of a worker's loop.",
 TP,"shutdown flag, notify_all, join in destructor","~ThreadPool, surviving TaskHandles")
p("T07","Concurrent use never races; workers are shielded from signals and exceptions",
 "All public pool functions may be called concurrently from any thread and any task without a data race or memory error. Exceptions thrown by tasks, by copying or moving callables into the pool, or by a lack of memory while a task is being added, never terminate a worker, corrupt the pool or leave it locked. While executing tasks, worker threads have SIGALRM, SIGINT, SIGPIPE, SIGTERM, SIGURG, SIGUSR1 and SIGUSR2 blocked.",
 ["schedules","programs","fault_sequences"],"all pairs of public functions run concurrently under all interleavings; all exception sources",
 "Functional tests do not observe data races, and no test looks at the signal masks or throws while a callable is moved into the queue.",
 TP,"one mutex protecting all bookkeeping; pthread_sigmask at worker start","happens-before relation between all memory accesses")
p("T08","A trigger wakes every waiter; interruptible sleep tells interrupt from timeout",
 "A thread that waits on a trigger returns once the trigger has become true and stays true until it has noticed; no wakeup is lost regardless of how setting, resetting, waiting, timed waiting and polling interleave. Timed waits and interruptible sleeps return the triggered state: 'triggered' only if the trigger was true at some time during the call, 'not triggered' only after the full duration has elapsed, and never earlier; once it has elapsed, they do return. This holds for all durations, from negative to the longest possible or infinite ones. All trigger operations are free of data races.",
 ["schedules","programs"],"all interleavings of setters, resetters, waiters, timed waiters and clock advances",
 "Tests use one waiter and real sleeps; a lost wakeup requires the set to fall between the waiter's test and its wait.",
 ["include/gul14/Trigger.h","src/Trigger.cc","include/gul14/time_util.h"],"flag + mutex + condition variable with notify_all","Trigger::wait*, sleep")

p("C01","SmallVector behaves like a standard vector under every sequence of operations",
 "After any sequence of constructions, assignments, insertions, erasures, resizes, reservations, swaps, moves and accesses, a small vector holds exactly the elements a std::vector would hold after the same operations, and all accessors, iterators, comparisons, return values and bounds errors agree with it. This holds for every inline capacity, across the transition between inline and heap storage, and also if an argument refers to an element of the same vector. The capacity never falls below the size or the inline capacity, and growing without exceeding the capacity does not move elements.",
 ["histories","configurations","inputs"],"all operation sequences up to a depth over small argument domains, inline capacities 1..4, several element types",
 "Tests run a few fixed sequences with distinct values; combinations of position, count, storage mode and aliasing are not covered.",
 ["include/gul14/SmallVector.h"],"uninitialized inline storage, hand-written shifting and growth","public interface")
p("C02","SmallVector never leaks, double-destroys or touches dead elements",
 "Over any sequence of operations, every element a small vector creates is destroyed exactly once, no operation reads, assigns or moves from an object that is not alive, and heap storage is released exactly once and never requested while size and requested capacity fit the inline capacity. If an element constructor, assignment or an allocation throws in the middle of an operation, the exception reaches the caller, nothing leaks, nothing is destroyed twice, and the vector can still be used and destroyed; a failing push_back, reserve or resize leaves its content unchanged. (Allocation failure while copying a vector whose elements copy without throwing is excluded because that copy constructor is declared noexcept.)",
 ["histories","fault_sequences"],"all operation sequences up to a depth combined with every possible point at which a copy, move, default construction or allocation fails",
 "Tests never inject exceptions and observe lifetimes only indirectly.",
 ["include/gul14/SmallVector.h"],"placement new / explicit destruction","element and allocation tracking")
p("C03","SlidingBuffer always presents the most recently pushed elements that fit",
 "A sliding buffer (fixed-size or resizable) behaves like a bounded double-ended queue: after any sequence of push, pop, resize and clear operations it holds exactly the elements such a queue holds, where pushing onto a full buffer drops one element at the opposite end. Size, capacity, full and empty flags, front, back, indexed and checked access, and iteration in both directions, also in the exposing variant, all describe this same sequence. Positions beyond the filled part but within the capacity are default-constructed, checked access beyond the capacity or filled part throws as documented, and resizing keeps the elements at the chosen end in order.",
 ["histories","configurations"],"all operation sequences up to a depth for all small capacities, fixed and resizable",
 "Tests cover selected sequences; wraparound positions combined with pop and resize are only sampled.",
 ["include/gul14/SlidingBuffer.h"],"ring buffer with begin/end index and full flag","public interface incl. iterators and reservoir access")
p("C04","Optional follows the standard optional contract, also when operations throw",
 "Under any sequence of construct, assign, emplace, reset, swap, move and value access operations, an optional is engaged exactly when a standard optional would be, holds the same value, and compares, relates and converts like it, and accessing an empty one through the checked accessor throws. Each contained object is created and destroyed exactly once. If constructing or assigning the contained value throws, the optional keeps the engaged state the standard prescribes and nothing leaks.",
 ["histories","fault_sequences","inputs"],"all operation sequences up to a depth over pairs of optionals with tracked element types and every throw point",
 "The tests consist of a handful of calls on ints and strings.",
 ["include/gul14/optional.h"],"union storage with engaged flag","public interface")
p("C05","Variants always hold exactly one tracked alternative and dispatch to it",
 "Under any sequence of construct, assign, emplace, swap, move and visit operations, a variant reports the alternative and value that a standard variant would report, and visitation and the typed accessors reach exactly that alternative; access to any other alternative fails with the documented error. Every contained object is created and destroyed exactly once. If an operation throws, the variant either keeps its previous value or becomes valueless as the standard prescribes.",
 ["histories","fault_sequences","inputs"],"all operation sequences up to a depth over two variants with tracked alternatives and every throw point; all alternative pairs for visitation and comparison",
 "The tests touch a few alternatives and no exceptions.",
 ["include/gul14/variant.h"],"recursive union plus index","public interface")
p("C06","Expected objects hold either value or error and chain operations faithfully",
 "Under any sequence of construct, assign, emplace, swap, move and access operations, an expected object holds exactly a value or exactly an error, as the standard's expected would, and checked access to the value of an error object throws an exception carrying that error. The monadic operations call their function exactly when the object is in the corresponding state, with the right value category, and pass the other state through unchanged. Contained objects are created and destroyed exactly once, and throwing constructors never leave an expected object without content, provided that its value or its error type is nothrow-move-constructible.",
 ["histories","fault_sequences","inputs"],"all operation sequences up to a depth over two expected objects with tracked types, every throw point, void and non-void value types",
 "The tests exercise a small number of calls with ints and strings and inject no exceptions.",
 ["include/gul14/expected.h"],"union of value and error with has-value flag","public interface")
p("C07","A finalizer runs its action exactly once at scope exit, and not otherwise",
 "The action handed to a finalizer is run exactly once, when the finalizer that finally owns it is destroyed, no matter whether the scope is left normally, by return or by an exception. Moving a finalizer passes this duty on to the new object; an action that is replaced by move assignment is discarded without being run. The action is run by no other event, the action object itself is not leaked, and a closure that is passed as an lvalue is copied and stays intact.",
 ["histories","fault_sequences"],"all sequences of create, move and scope exit operations incl. exits by exception, over function objects, references and function pointers",
 "Tests cover a few single moves; no exhaustive combination of moves and exits.",
 ["include/gul14/finalizer.h"],"engaged flag in RAII object","action call count")
p("C08","string_view agrees with std::string on every query and never reads out of bounds",
 "For every content, position, length and character argument, a string view returns what the std::string of the same content returns for find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of, compare, relational operators, substr, copy, element access and iteration, including positions beyond the end, huge lengths, embedded zeros and characters above 127. Removing a prefix or suffix removes exactly that many characters, at most all. Out-of-range positions throw exactly where std::string would, and no operation reads outside the viewed range.",
 ["inputs"],"all contents and needles up to a length over an adversarial alphabet, all positions including boundary values of the size type",
 "The tests do not cover most search functions at all, and no out-of-range or huge arguments.",
 ["include/gul14/string_view.h"],"hand-written backport of basic_string_view","public interface")
p("C09","Spans view exactly the given elements, and all subviews are exact",
 "A span constructed from an array, container, pointer and length, pointer pair or another span refers to exactly those elements in order; size, byte size, emptiness, iteration in both directions, element access and comparisons agree with the underlying sequence. first, last and subspan, with compile-time or run-time arguments, denote exactly the requested elements for every valid offset and count.",
 ["inputs","configurations"],"all lengths up to a bound with all valid offset/count pairs, static and dynamic extents",
 "The tests contain only a trivial span example.",
 ["include/gul14/span.h"],"pointer + size backport of std::span","public interface")

p("S01","Escaping is lossless and its output is plain printable ASCII",
 "For every byte string, unescaping the escaped form yields the original string. The escaped form contains only printable ASCII characters and no unescaped quote, and characters that need no escaping stay as they are. Unescaping accepts any string: valid escape sequences are replaced by the byte they denote, malformed or unknown ones are passed through as documented, and nothing beyond the string is read.",
 ["inputs"],"all byte strings of length up to 2, all strings over an adversarial alphabet up to a larger length",
 "Tests sample a few dozen strings.",
 ["include/gul14/escape.h","src/escape.cc"],"byte-wise encoder and decoder state machine","escape, unescape")
p("S02","Splitting and joining are exact inverses for every delimiter kind",
 "Splitting a string by a character, non-empty string or regular-expression delimiter yields exactly the pieces between consecutive non-overlapping leftmost delimiter matches, including empty pieces at both ends, so that an empty string splits into one empty piece; an empty delimiter string splits between all characters. The pieces appear in order and views point into the input. Joining a list puts the glue exactly between consecutive elements, so that joining the pieces of a split with the same delimiter gives back the original string.",
 ["inputs"],"all strings up to a length over a small alphabet times all delimiters up to a length, several container types",
 "Tests contain a few examples per overload.",
 ["include/gul14/join_split.h"],"find-based splitting loop","split, split_sv, join")
p("S03","Tokenizing yields exactly the maximal delimiter-free pieces",
 "Tokenizing a string returns, in order, exactly the maximal non-empty substrings that contain none of the delimiter characters, for every string, every set of delimiters (including none and zero bytes) and each way of storing the result. View results point into the input and leave it unchanged.",
 ["inputs"],"all strings up to a length over a small alphabet times all delimiter sets",
 "Tests contain a few dozen examples.",
 ["include/gul14/tokenize.h"],"find_first_not_of/find_first_of loop","tokenize, tokenize_sv")
p("S04","Trimming removes exactly the leading or trailing whitespace",
 "Trimming a string on the left, right or both sides removes the maximal run of whitespace characters on that side and nothing else, for every content including zero bytes and bytes above 127 and every explicitly given whitespace set. View results point into the original string.",
 ["inputs"],"all strings up to a length over an alphabet of whitespace and other bytes, all whitespace sets",
 "Tests contain a few examples.",
 ["include/gul14/trim.h","src/trim.cc"],"find_first_not_of / find_last_not_of","trim, trim_left, trim_right and view variants")
p("S05","Replacing substitutes every non-overlapping occurrence and nothing else",
 "Replacing a needle in a string substitutes every leftmost non-overlapping occurrence by the replacement, never rescans replaced text, and leaves everything else untouched, for every haystack, needle and replacement including empty ones, needles longer than the haystack, self-overlapping needles and replacements containing the needle. In-place and copying versions give the same result and always terminate.",
 ["inputs"],"all haystacks, needles and replacements up to a length over a small alphabet",
 "Tests contain a few examples.",
 ["include/gul14/replace.h","src/replace.cc"],"find + append loop","replace, replace_inplace")
p("S06","Substring predicates and ASCII case functions match their definition",
 "The starts-with, ends-with and contains predicates are true exactly if the text begins with, ends with or contains the pattern, and their case-insensitive forms exactly if this holds after mapping A-Z to a-z. Case conversion and case-insensitive comparison change or equate only the 26 ASCII letters and leave every other byte untouched. Conversions are idempotent, keep the length and do not depend on the locale.",
 ["inputs"],"all 256 byte values and all pairs of bytes; all text/pattern pairs up to a length over an adversarial alphabet",
 "Tests sample a few strings.",
 ["include/gul14/substring_checks.h","include/gul14/case_ascii.h","src/case_ascii.cc"],"byte-wise comparison","predicates and conversions")
p("S07","Concatenation, repetition, hex and safe-string helpers are exact",
 "Concatenating strings, characters and numbers yields the concatenation of their individual representations, where integers convert to their exact decimal form in any locale and embedded zeros and long arguments are preserved. Repeating a string n times yields exactly n copies. The hex form of an integer is its two's-complement value in lower-case digits zero-padded to the full width, and building a string from a possibly null pointer and a maximum length never reads beyond that length or the terminator.",
 ["inputs"],"all 8- and 16-bit values and boundary windows of larger types; all argument tuples up to a count over small string alphabets; all lengths",
 "Tests sample a few values and combinations.",
 ["include/gul14/cat.h","src/cat.cc","include/gul14/string_util.h","src/string_util.cc"],"stringification buffers and appends","cat, repeat, hex_string, safe_string")
p("S08","Hex dumps show every byte at its offset exactly once",
 "For every data buffer, element width and maximum length, the hex dump consists of an optional prompt followed by rows of 16 elements that show the offset as six hex digits, the value of each element in full-width lower-case hex and, for byte-sized elements, the corresponding printable characters, so that the dumped data can be reconstructed exactly from the hex columns; rows after the first are indented by the width of the prompt. The dump covers exactly the requested number of elements, up to the documented limit, and reads none beyond them. The forms that return a string, write to a stream or act as a stream parameter all produce the same text in a stream with default formatting, and the string form does so for any digit grouping of the global locale.",
 ["inputs"],"all lengths around the row boundaries, all byte values at all columns, element types of 1 to 8 bytes, all kinds of sources",
 "Tests compare two or three fixed dumps.",
 ["include/gul14/hexdump.h"],"row formatting loop","hexdump, hexdump_stream")

p("N01","Integer and bool parsing accepts exactly the valid in-range numerals",
 "Converting text to an integer succeeds if and only if the complete text is an optional sign (minus only for signed types) followed by decimal digits and the value is representable in the requested type, and then returns exactly that value; every other text yields an empty result. Converting to bool accepts exactly the documented words in any case and the digits 0 and 1. This holds for every integer type, any number of leading zeros and any locale.",
 ["inputs"],"all strings up to a length over an adversarial alphabet, and windows around both limits of every integer type with leading zeros, signs and trailing characters",
 "Tests sample some values per type.",
 ["include/gul14/to_number.h"],"digit accumulation with overflow checks","to_number<int types>, to_number<bool>")
p("N02","Floating-point parsing accepts exactly valid literals and rounds closely",
 "Converting text to a floating-point number succeeds exactly if the complete text is an optional minus sign followed by a decimal literal with optional fraction and exponent, or one of the documented infinity and NaN words in any case. The result equals the mathematically exact value up to a few units in the last place of a double (or of the result type if that is less precise), keeps the sign, and numbers out of range yield an empty result, infinity or zero. The result does not depend on the locale, and no text leads to an out-of-bounds read or undefined arithmetic.",
 ["inputs"],"all strings up to a length over an adversarial alphabet; all combinations of mantissa shapes with every exponent",
 "Tests sample some literals.",
 ["include/gul14/to_number.h","src/to_number.cc"],"hand-written mantissa/exponent parser","to_number<float, double, long double>")
p("N03","Bit operations set, clear, flip and test exactly the addressed bit",
 "For every integer type, value and bit position within its width, setting, clearing, assigning, flipping and testing a bit affects or reports exactly this bit and leaves all others as they were; the result type keeps the width of the input.",
 ["inputs"],"all 8- and 16-bit values with all bit positions; all single- and double-bit patterns of 32- and 64-bit types with all positions",
 "Tests sample a few values.",
 ["include/gul14/bit_manip.h"],"shift and mask expressions","bit, bit_set, bit_reset, bit_flip, bit_test")
p("N04","gcd and lcm are mathematically exact for all representable operands",
 "For every pair of integers of equal signedness for which the result is representable in the common type, the greatest common divisor and least common multiple are the mathematically correct non-negative values, with gcd(0, a) = |a| and lcm(0, a) = 0, symmetric in the arguments and independent of their signs.",
 ["inputs"],"all pairs of 8-bit values in all sign and width combinations, windows around the limits of larger types",
 "Tests sample some pairs.",
 ["include/gul14/gcd_lcm.h"],"Euclidean recursion with common types","gcd, lcm")
p("N05","Tolerance comparisons, clamping and absolute value hold on the whole value range",
 "The absolute-tolerance, order-of-magnitude and ULP comparisons are symmetric in their operands, true for equal operands, and decide whether the operands differ by no more than the absolute tolerance, by less than the given power of ten relative to the larger magnitude, or by no more than the given number of units in the last place, for all values of the type including the extreme ones (up to rounding for floating-point types, and a factor of two at binade boundaries for the ULP form); no comparison with NaN is true. Clamping returns the value itself if it lies between the bounds and the violated bound otherwise. Absolute value is exact.",
 ["inputs"],"all pairs of 8-bit values with all tolerances, and a grid of extreme, boundary and special values of larger integer and floating-point types",
 "Tests sample a few typical pairs.",
 ["include/gul14/num_util.h"],"difference and comparison expressions","within_abs, within_orders, within_ulp, clamp, abs")
p("N06","Statistics agree with their mathematical definition for every small data set",
 "For every data set whose sums do not overflow, mean, root mean square, median, standard deviation, minimum, maximum and their combined form return the value given by the mathematical definition within rounding accuracy (off by less than one for integral result types), independent of element order, container type and accessor function. NaN elements are ignored when looking for extremes and propagate through mean, rms and standard deviation, and empty sets give the documented result. Removing outliers, in place or in a copy, removes exactly the requested number of elements farthest from the mean and keeps the order of the others.",
 ["inputs"],"all data sets up to a length over an alphabet of small, large, negative, equal and special values, in all orders and several container and value types",
 "Tests use one or two fixed data sets.",
 ["include/gul14/statistics.h"],"single-pass accumulations and nth-element selection","mean, rms, median, standard_deviation, min_max, remove_outliers")
p("D01","Calendar dates and day counts convert into each other without error",
 "For every day in the supported range, converting a calendar date to a serial day number and back is the identity, consecutive days have consecutive serial numbers, and weekday, leap-year, last-day-of-month and indexed-weekday computations agree with the proleptic Gregorian calendar. Date validity is decided correctly for all year, month and day combinations, and adding months or years keeps the day field and wraps the other fields correctly; a day beyond the end of its month counts on from the first of that month. Rounding of durations and time points and the 12-hour clock follow their definition.",
 ["inputs"],"every day of the representable range of years; all month/day field values including invalid ones; all weekday indices",
 "The repository has no tests of these functions beyond one smoke test.",
 ["include/gul14/date.h"],"civil calendar arithmetic","sys_days, year_month_day and related types")
p("D02","Date and time formatting and parsing round-trip exactly",
 "Formatting a date, time point or duration prints the fields of exactly that instant for every supported conversion specifier and fails if the value lacks the field or contradicts itself; splitting a duration into hours, minutes, seconds and subseconds is exact for positive and negative durations. Parsing the formatted text gives back the same value, including time zone offsets and abbreviations, and leaves the text after it in the stream. Malformed text, out-of-range fields and contradictory fields make parsing fail and leave the target unchanged rather than yield a wrong date.",
 ["inputs"],"all days of a multi-year window and all boundary instants times all conversion specifiers; all small field perturbations of parsed text",
 "The repository has no tests of formatting beyond one smoke test.",
 ["include/gul14/date.h"],"stream-based format/parse engine","format, parse, time_of_day")
p("U01","Callables are invoked exactly as the language's callable protocol prescribes",
 "Invoking a callable calls exactly the function that the C++17 standard prescribes for its kind: functions, function pointers, function objects of any value category and qualification, and pointers to member functions or data members combined with objects, derived objects, pointers, smart pointers and reference wrappers. Arguments and results keep their type and value category and nothing is copied. The traits that predict invocability, result type, convertibility to a desired result (anything is convertible to void) and noexcept-ness agree with it for every combination. An overload set calls the one of its functions that ordinary overload resolution selects, irrespective of their order, and each copy of it has its own state.",
 ["inputs","configurations"],"all combinations of callable kinds, cv- and ref-qualifications, object expressions and argument lists up to three arguments; all orders of overloads",
 "The repository has no tests for these traits beyond their indirect use.",
 ["include/gul14/traits.h","include/gul14/variant.h","include/gul14/utility.h"],"expression SFINAE over six invocation forms; recursive inheritance for overload sets","invoke, invoke_result, is_invocable, is_invocable_r, OverloadSet, make_overload_set, monostate")
p("U02","Type descriptions are complete and type traits classify every type correctly",
 "The description of a type is exactly the compiler's own spelling of that type, neither truncated nor extended, so that different types have different descriptions. Stripping qualifiers and references removes exactly the outermost reference and the const and volatile qualifiers below it. A type counts as container-like if and only if it has callable cbegin() and cend() member functions and a value_type.",
 ["inputs"],"all types of a grammar of base types with up to two nested type constructors",
 "Tests look for a few substrings in the names of a handful of types.",
 ["include/gul14/type_name.h","include/gul14/traits.h"],"cutting the name out of __PRETTY_FUNCTION__; SFINAE","type_name, remove_cvref, IsContainerLike")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
