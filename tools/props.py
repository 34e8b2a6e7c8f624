#!/usr/bin/env python3-vt
# Source of properties.jsonl (run by hand after editing; the checks read only properties.jsonl).
import json
B='lib/flckbaselist.tcc'; S='lib/flckshm.cc'; I='lib/flckshminit.cc'; U='lib/flckutil.cc'
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
L=[]
L.append(p('P01','Named mutex exclusion under every interleaving',
 'At any moment at most one caller, whether a thread of this process or of another one, holds a given named mutex, however blocking, try and timed locks and unlocks interleave, including the first uses that create the mutex. A blocking lock returns success and only once the mutex is held; a try lock answers success or busy, a timed lock success or timeout. When every holder releases, every blocked caller eventually gets the mutex and no combination of callers deadlocks.',
 ['schedules'],'all interleavings of the shared-memory accesses of 2 and 3 callers doing 1 to 2 critical sections each on up to 2 names, in every robust mode, in one or several processes',
 'The repository tests run a handful of threads once, with whatever interleaving the machine produces; a lost update in a few-instruction window practically never shows.',
 [B,S,'lib/flcklistnmtx.cc'],[('compare-and-swap on the owner word plus recursion counter',B),('table guard around find-or-create',S)],['return codes and overlap of critical sections'],[('owner word and count of a named mutex','who holds it and how often','lib/flckstructure.h')],'small retry limits under FULLOCK_VERIF_BOUNDS'))
L.append(p('P02','Named mutex ownership and recursion follow the specification',
 'A named mutex belongs to the thread that locked it: the owner may lock it again by any of the three lock calls and must unlock it as many times before anybody else can get it, a call by another thread is refused (busy, timeout) and its unlock is rejected with a permission error that changes nothing. Unlocking a name never locked is an invalid-argument error, and unlocking a mutex that is free succeeds without effect. These answers depend only on the history of calls, not on which name, robust mode or process is involved.',
 ['histories'],'every history of 5 (quick) to 7 (thorough) calls by 2 to 3 callers over 2 names, operation, caller and name being solver variables',
 'The tests exercise three fixed scenarios; recursion depth, cross-thread unlocks and mixtures of names are a space of thousands of histories.',
 [B,S,'lib/flcklistnmtx.cc'],[('recursion counter and owner comparison',B)],['return codes of lock, trylock, timedlock, unlock'],None,None))
L.append(p('P03','Named objects are identified exactly by their names',
 'Two named mutexes (or two named condition variables) are the same object exactly when their names agree, where names longer than the documented maximum are compared on their retained prefix; holding one never blocks, releases or wakes another one, even if internal hash values collide or one name is a prefix of the other. A missing name is rejected as an invalid argument and changes nothing.',
 ['inputs'],'all pairs of names up to 4 (quick) to 6 (thorough) arbitrary bytes, plus pairs around the length limit with arbitrary tails; hash values of colliding names are solver-chosen',
 'Tests use two or three fixed names, so prefix, truncation and hash-collision cases are never met.',
 [S,'lib/flcklistnmtx.h','lib/flcklistncond.h',B],[('comparison by hash then by name',"lib/flcklistnmtx.h"),('copy truncated to the name buffer',"lib/flcklistnmtx.cc")],['busy or success of try locks on the second name'],None,None))
L.append(p('P04','Reader/writer exclusion on a file range under every interleaving',
 'On one range of one file, a writer excludes every other caller and readers exclude only writers, whichever threads and processes the callers are and however the calls interleave, including the calls that create and remove the lock structures. A blocking read or write lock succeeds and only once the lock is held, and when every holder releases, every blocked caller eventually gets the lock. Whatever the interleaving, the lock tables stay consistent: after everybody is done the range can be write locked at once.',
 ['schedules'],'all interleavings of 2 callers (3 in reduced scenarios) doing read, write, try and timed locks and unlocks on the same or a neighbouring range, in every robust and unit-freeing mode',
 'The stress tests cannot force the windows between taking the lock word, marking the lock as held and freeing a structure.',
 [B,S,'lib/flcklistofflock.cc','lib/flcklistlocker.cc','lib/flcklistfilelock.cc'],[('compare-and-swap on the range lock word','lib/flckbaselist.tcc'),('protect flags and table guard','lib/flcklistofflock.cc')],['overlap of critical sections and return codes'],None,'small retry limits under FULLOCK_VERIF_BOUNDS'))
L.append(p('P05','Range locks conflict exactly when same file, overlap and a writer',
 'For callers using a file through its device and inode, a lock request conflicts with a lock held by another descriptor or thread exactly when both concern the same file, their ranges overlap and at least one of them is a write; locks on other files or disjoint ranges never interfere. Unlocking releases exactly the named lock of the calling thread and descriptor; unlocking what is not held is reported as an error and changes nothing. The lock query reports a file as locked while a lock is held on it and as free otherwise.',
 ['histories','inputs'],'every history of 3 (quick) to 4 (thorough) try locks and unlocks with solver-chosen descriptor, kind, offset and length; every pair of ranges with 63-bit offsets and positive lengths that end within the 63-bit file space for the conflict relation',
 'Tests use a few fixed offsets; overlap arithmetic, extreme offsets and unlock bookkeeping depend on all pairs of ranges.',
 [S,'lib/flcklistofflock.h','lib/flcklistofflock.cc','lib/flcklistlocker.cc','lib/flcklistfilelock.h'],[('range comparison','lib/flcklistofflock.h'),('locker list per range','lib/flcklistofflock.cc')],['return codes'],None,None))
L.append(p('P06','A refused or expired lock attempt leaves no trace',
 'A try lock never waits for another holder, and a lock attempt that is refused or times out leaves the lock tables as if it had not been made: no unit stays allocated beyond what the freeing mode retains, no reader or writer is counted, nobody else is blocked by it and the holder can still unlock normally. This holds for file range locks and named mutexes alike, also when the refused attempts run concurrently with the holder releasing.',
 ['schedules','histories'],'every history of 3 to 5 calls around refused attempts, and every interleaving of a refused or timed attempt with an unlock',
 'Leaks of one table entry per refused attempt pass every functional test and only show after thousands of calls.',
 [S,'lib/flcklistofflock.cc','lib/flcklistfilelock.cc'],[('failure path that removes the locker and frees units','lib/flcklistofflock.cc')],['counts of free units, lock words, later lock results'],None,'small retry limits under FULLOCK_VERIF_BOUNDS'))
L.append(p('P07','Timed operations honour their deadline for every duration and clock',
 'A timed lock or wait that cannot succeed returns a timeout error, never before the requested duration has elapsed on the monotonic clock and at the first check after it has, for every duration and every pair of clock readings, including second boundaries. A timed call that can succeed at once succeeds whatever the duration, and a failing clock is reported as an error without acquiring anything.',
 ['inputs'],'every non-negative duration up to 2^40 microseconds, every start and end reading with normalised nanoseconds below 2^33 seconds, for mutex, read, write and condition waits',
 'Tests use one or two round durations on a clock whose nanosecond field they do not control, so borrow and carry errors never show.',
 [B,'lib/flckutil.h'],[('time difference and comparison macros','lib/flckutil.h'),('timed spin loops',B)],['return codes relative to the clock readings'],None,None))
L.append(p('P08','Condition variables: no lost, spurious or duplicated wake-ups',
 'A signal wakes the longest-waiting waiter of that condition if there is one, a broadcast wakes all that are waiting, and a waiter returns success only after a signal or broadcast issued while it was waiting; signals do not accumulate and other conditions are unaffected. While it waits a waiter does not hold the mutex, and whenever the wait reports success or timeout it holds the mutex again, exclusively. A wait that has returned a timeout is no longer counted as waiting, and signalling a condition nobody has ever waited on is an invalid-argument error.',
 ['schedules','histories'],'all interleavings of 1 to 2 waiters (plain and timed) with 1 to 2 signallers or broadcasters using the mutex, and every order of waiters in the single-step histories',
 'The tests sleep to sequence threads, so the race between registering a waiter, releasing the mutex and signalling is never explored.',
 [S,'lib/flcklistncond.cc','lib/flcklistwaiter.cc',B],[('waiter inserted under the table guard before the mutex is released','lib/flcklistncond.cc'),('per-waiter state word','lib/flcklistwaiter.cc')],['return codes, order of wake-ups, mutex ownership at return'],None,'small retry limits under FULLOCK_VERIF_BOUNDS'))
L.append(p('P09','A dead owner of a named mutex never blocks the others',
 'In the robust modes, when a caller dies at any point of locking, holding or unlocking a named mutex, another caller that waits for the mutex (high robust mode), or the dead-lock sweep run by the worker (low mode), gets it released and usable, with its recursion count reset. A mutex whose owner is alive is never taken from it, neither by waiters nor by the sweep, and a mutex released this way is again exclusive.',
 ['crash_points','schedules'],'a crash before every shared-memory write of one caller, in all interleavings with one or two surviving callers and with the sweep',
 'The automatic-recovery tests kill a process while it sleeps holding the lock: one crash point out of all those in the locking code.',
 [B,S,'lib/flcklistnmtx.cc',U],[('owner liveness check and forced unlock','lib/flcklistnmtx.cc'),('retry loop of the robust blocking lock','lib/flcklistnmtx.cc')],['return codes and exclusion among survivors'],None,'small retry limits under FULLOCK_VERIF_BOUNDS'))
L.append(p('P10','File range locks of dead processes and closed descriptors are recovered',
 'In the robust modes a range lock whose holding process has died, or whose descriptor that process has closed or now uses for another file, is released when another caller waits for it (high mode) or when the dead-lock sweep runs, and only then: the locks of live holders whose descriptor still refers to the file are never released. After recovery of one of several readers the remaining readers still exclude writers, and the freed range behaves as new.',
 ['crash_points','fault_sequences','histories'],'every combination of live, dead, closed-descriptor and re-used-descriptor holders of up to 2 locks, and a crash before every shared-memory write of a locking or unlocking caller outside the windows listed as known findings',
 'Tests kill one process at one moment; which of several holders dies, and at which instruction, is what decides correctness.',
 ['lib/flcklistlocker.cc','lib/flcklistofflock.cc','lib/flcklistfilelock.cc',S,U],[('liveness check per locker','lib/flcklistlocker.cc'),('sweep over files, ranges and lockers','lib/flcklistfilelock.cc')],['return codes, remaining exclusion'],None,'small retry limits under FULLOCK_VERIF_BOUNDS'))
L.append(p('P11','A crash inside the library never wedges or corrupts the shared tables',
 'If a caller dies anywhere inside a lock, unlock, signal or wait call, another caller needing the same table proceeds after detecting the death: it never waits forever for the internal guard, and never takes the guard from a live caller. All lists of used and free units remain well formed: finite, without cycles or units that are in two lists, and with no access outside the shared memory. At most the units the dead caller was working on are lost.',
 ['crash_points','schedules'],'a crash before every shared-memory write of one call of each kind, followed by calls of a surviving caller, in all interleavings',
 'No test can stop a process between two particular stores to shared memory.',
 [B,S],[('guard word holding the owner identity, taken over when the owner is dead',B),('order of the pointer updates in list insertion and removal',B)],['well-formedness of the shared lists, completion of the survivor'],None,'small retry limits under FULLOCK_VERIF_BOUNDS'))
L.append(p('P12','Lock units are conserved and exhaustion is reported cleanly',
 'Every unit of the shared tables is at any quiescent time in exactly one of the free or used lists, so that repeated locking and unlocking can go on forever; after all locks are released the units are back in the free lists as the configured freeing mode promises. When a table is exhausted the call fails with a no-locks error, changes nothing for the other callers, and the same request succeeds as soon as units have been returned.',
 ['histories','configurations'],'every history of 4 to 6 lock and unlock calls over several files, ranges, names and descriptors with tables of minimum size, for every freeing mode, plus exhaustion at each of the six tables',
 'Default tables hold thousands of units, so tests never come near exhaustion nor notice a slow leak.',
 [S,'lib/flcklistfilelock.cc','lib/flcklistofflock.cc','lib/flcklistncond.cc',B],[('retrieve/insert/cutoff of list units',B),('freeing after unlock','lib/flcklistofflock.cc')],['return codes and list contents'],None,None))
L.append(p('P13','Shared memory layout is exact for every table size and mapping address',
 'For every permitted combination of table counts, the shared file is large enough for all tables, the tables do not overlap, every free list initially contains exactly the configured number of units, and no access leaves the mapping. The stored links are position independent: a process that maps the file at another address sees and maintains the same lists.',
 ['configurations'],'all six counts symbolic within their permitted ranges for the layout arithmetic; concrete small counts for the construction of every list; two processes with different mapping addresses',
 'Tests use the default counts and one mapping address per run.',
 [I,S,B],[('size and offset computation','lib/flckshminit.cc'),('relative links','lib/flckshm.h')],['header contents and list traversal'],None,None))
L.append(p('P14','Configuration is validated, defaulted and reported consistently',
 'Environment settings and explicit settings are accepted exactly when they are legal: counts within the permitted ranges, known mode names, readable numbers; an illegal value is rejected and leaves the previous or default setting in force, and an accepted one is what the shared file is then built with; a count is read from the leading digits of its text. A re-initialisation given explicit counts uses them, given defaults uses the default values, and with any illegal count fails without touching the attached shared memory. The setters return the previous value and the getters report the current one.',
 ['inputs','configurations'],'every string of up to 3 (thorough 5) characters and every digit string of up to 5, 10 or 20 digits of given lead for the numeric settings, every string of up to 14 letters as a mode name, every 64-bit value for the numeric setters and the six re-initialisation counts together',
 'Tests set each variable to one valid value.',
 [S,I,U],[('environment loading','lib/flckshm.cc'),('re-initialisation checks','lib/flckshm.cc')],['settings after loading, return value of re-initialisation'],None,None))
L.append(p('P15','Concurrent start-up yields one shared memory used by all',
 'However the start-ups and shut-downs of several processes interleave, all processes that report being attached at the same time share one and the same set of tables, nobody re-initialises the file while another process is attached, and a starter finds either an initialised file or initialises it itself. A file left behind by processes that are all gone is initialised afresh by the next process that starts while nobody holds it, and a start-up ends, attached or with an error, within its retry time.',
 ['schedules','crash_points'],'all interleavings at system-call granularity of 2 (quick) to 3 (thorough) processes starting, attaching and detaching, with one of them dying at any system call',
 'Tests start processes with sleeps in between; the window between creating the file and locking it is microseconds wide.',
 [I,S],[('exclusive creation and read/write file lock protocol','lib/flckshminit.cc')],['header contents, attached state, file lock state'],None,None))
L.append(p('P16','A forked child has its own identity and attachment',
 'After fork the child is a caller of its own: locks held by the parent are not owned by the child, so the child cannot recursively take or release them, locks the child takes belong to the child, and liveness checks refer to the right process and thread. The child keeps the shared memory protected against re-initialisation as long as it uses it, and repeated initialisation does not multiply the fork handling.',
 ['histories','schedules'],'fork (also of the child again) after every prefix of up to 2 calls of the parent, then every history of up to 3 (thorough 4) calls, sweeps, exits and deaths of parent, child and a process that starts later, also when the parent dies before the child runs',
 'Tests that fork let the child take fresh locks only and never check ownership across the fork.',
 [S,U,I],[('caller identity from process and thread id','lib/flckutil.cc'),('fork handler','lib/flckshminit.cc')],['return codes in the child, file locks of the child'],None,None))
L.append(p('P17','Without shared memory the configured policy decides every call',
 'When the shared memory is not attached every lock, try lock, timed lock, unlock, wait, signal and query returns the answer of the configured policy: success (or not locked) under the allow policies, and a no-locks error (or locked) under the deny policies; a missing name is rejected first, and a descriptor that is not open is answered by the same policy (not locked for the query). Under the retry policies each such call first tries to attach and behaves normally if that works, also when several threads do so at once, which make one attachment together; under the others no call attaches. A start that fails at any system call leaves no mapping, descriptor or file lock behind and no call crashes.',
 ['configurations','fault_sequences'],'every policy, every API call, and attachment failing at each system call of the start-up',
 'Tests never run with an unattachable shared file.',
 [S,I],[('attach check at the head of every call','lib/flckshm.cc')],['return codes'],None,None))
L.append(p('P18','The recursive reader/writer helper object locks and unlocks exactly once',
 'The helper objects of one thread on one and the same file range together hold exactly one underlying lock, taken by the first and released by the last of them; it is exclusive as soon as one of them has asked for writing, until it is released or its only object asks for reading, and an object that is unlocked, re-targeted or destroyed gives up exactly its own share. Objects of different threads exclude each other like other callers of the lock, and no object or destroyed object is touched after it is gone. A failing underlying call is reported as a failure, leaves every object usable, and leaves no lock behind once the objects are gone.',
 ['histories','schedules','fault_sequences'],'every history of 3 (thorough 4) operations on 2 to 3 helper objects over 2 ranges, operations, objects and targets being solver variables; a failing system call at any point; all interleavings of 2 threads with 1 to 2 objects each',
 'Tests run two fixed nesting scenarios.',
 ['lib/rwlockrcsv.cc','lib/rwlockrcsv.h'],[('per-thread table of locked ranges with counters','lib/rwlockrcsv.cc')],['lock words and return values'],None,None))
L.append(p('P19','Liveness probes answer truthfully and caching never changes an answer',
 'A process or thread is reported alive exactly when it exists, a descriptor is matched to a file exactly when that process has it open on that device and inode, and when the descriptor stands for no file, or cannot be inspected for lack of permission, the answer falls back to whether the thread exists. Within one sweep a cached answer equals what the probe itself answers for the same process, thread and descriptor, for every order of questions. So a sweep releases every lock of a caller found gone, whatever else that caller or another one holds, and none of a live one.',
 ['inputs','histories'],'every sequence of up to 3 (quick) or 4 (thorough) questions with solver-chosen process, thread and descriptor against every state (thread ended, process died, may not be inspected, descriptor open on any device and inode) of up to 3 processes with 4 threads; every sweep over 2 holders of any of 3 kinds of lock',
 'Cache confusion needs particular collisions of identifiers between questions, which a test has to guess.',
 [U,'lib/flckpidcache.h','lib/flckutil.h'],[('probe through the process file system','lib/flckutil.cc'),('cache keyed by process, thread and descriptor','lib/flckpidcache.h')],['probe results with and without cache'],None,None))
L.append(p('P20','Path, number and file helpers are correct for every input',
 'Path normalisation yields the canonical absolute path: no empty, dot or dot-dot components, parent steps removing exactly one component and never going above the root. Number parsing accepts exactly the well-formed numbers and delivers their value. The read, write and fill helpers transfer every requested byte exactly once at the right place despite interruptions and short transfers, and report how much they delivered.',
 ['inputs','fault_sequences'],'every path of up to 6 characters over the relevant alphabet, every string of up to 4 bytes as a number, every pattern of interruptions and short counts over transfers of up to 8 bytes',
 'No test calls the helpers with unusual paths or short transfers.',
 [U,'lib/flckutil.h'],[('path normalisation','lib/flckutil.cc'),('retrying input/output loops','lib/flckutil.cc')],['return values and buffers'],None,None))
L.append(p('P21','The worker thread obeys run, stop and exit requests and misses no event',
 'While told to run, the background worker sweeps for dead processes after every reported closing of the shared file and every hundred polls without an event; after a stop request at most the sweep already begun finishes, a run request resumes it, and an exit request, or the end of its controller object, returns once the worker has ended, with its descriptors and its watch released, in whatever state it was. Event records of any size and any split are parsed without reading outside the buffer, and the closing of the watched file is recognised wherever it appears and nothing else is taken for it. A worker whose start fails at any system call is reported or ends by itself and leaves nothing behind.',
 ['schedules','inputs'],'all interleavings of the worker loop with 3 to 5 (thorough 7) control requests and 3 events, every script of 5 (thorough 7) poll results, every failing system call of the start, and every event buffer of up to 3 (thorough 4) records with arbitrary watches, masks and name lengths cut at any byte',
 'Tests see the worker only through its effects after seconds of waiting.',
 ['lib/flckthread.cc','lib/flckthread.h',U],[('control flag exchanged between controller and worker','lib/flckthread.cc'),('event record walk','lib/flckthread.cc')],['worker state and number of sweeps'],None,None))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in L)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2,(x['id'])
