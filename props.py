"""What each check builds, runs and claims. Read by run.py and tools/gen_manifest.py."""

_CL = dict(cc='clang', cxx='clang++')
_SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=pointer-overflow,nonnull-attribute,vptr',
        '-fno-omit-frame-pointer']
import glob as _g
_FUZZ = (_g.glob('/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a') +
         _g.glob('/usr/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a') + ['-fsanitize=fuzzer-no-link'])[0]

VARIANTS = {
    # sanitized, coverage instrumented (library and case code), uninitialised locals filled with a pattern
    'asan': dict(_CL, cflags=['-O1', '-g'] + _SAN + ['-ftrivial-auto-var-init=pattern', '-fsanitize=fuzzer-no-link', '-DVP_FUZZ'],
                 ldflags=[_FUZZ]),
    # sanitized, no coverage instrumentation
    'asan0': dict(_CL, cflags=['-O1', '-g'] + _SAN + ['-ftrivial-auto-var-init=pattern'], ldflags=[]),
    'tsan': dict(_CL, cflags=['-O1', '-g', '-fsanitize=thread', '-fno-omit-frame-pointer'], ldflags=[]),
    # as shipped, and without optimisation
    'plain0': dict(cc='gcc', cxx='g++', cflags=['-O0', '-g'], ldflags=[]),
    'plain': dict(cc='gcc', cxx='g++', cflags=['-O2', '-g'], ldflags=[]),
}

PROPS = {}


def pure(pid, harness, rule, exh=True, rand=(40000, 4000000), fuzz=(30000, 3000000), wraps=(), args=None, fuzzargs=None,
         assumptions=(), plain=None, huge=0, **kw):
    a = dict(args or {}, prop=pid, budget=(12, 500))
    jobs = []
    if exh:
        jobs.append(dict(name='exhaustive', phase='exh', args=a))
    jobs.append(dict(name='random', phase='rand', cases=rand, args=a))
    if fuzz:
        jobs.append(dict(name='coverage-guided', phase='fuzz', cases=fuzz, args=dict(a, **(fuzzargs or {}))))
    if huge:
        jobs.append(dict(name='very-long', phase='custom', variant='plain', shards=huge, args=dict(prop=pid)))
    if plain:
        jobs.append(dict(name='random-shipped-flags', phase='rand', variant='plain', cases=plain, args=dict(a, seedoff=1)))
    PROPS[pid] = dict(harness=harness, jobs=jobs, rule=rule, wraps=wraps, assumptions=list(assumptions), **kw)


ALLOC = ('malloc', 'calloc', 'realloc')

pure('C01', 'base58.cpp', wraps=ALLOC, huge=2, rand=(10000, 500000), fuzz=(8000, 400000),
     rule='case = byte string (all of up to 2 bytes, thorough 3; random and coverage-guided longer ones with zero runs, one of 47 500 bytes) encoded into '
          'exact, short and long buffers and by the allocating form, then decoded; non-trivial = non-empty, distinct by content')
pure('C02', 'base58.cpp', wraps=ALLOC,
     rule='case = text (all of up to 2 bytes, all 3-digit texts; random and coverage-guided ones with 0-3 foreign characters) decoded '
          'by both forms, with and without allocation failures; non-trivial = non-empty, distinct by content')
pure('C03', 'base64.cpp', huge=3, wraps=ALLOC,
     rule='case = byte string encoded (exact, short, long buffer, allocating form) and decoded back, or a text (valid, mutated, or from all '
          'short texts over a 16-character set covering every role) decoded into exact, short and ample buffers, with allocation failures '
          'and overflowing sizes; non-trivial = non-empty, distinct by content')
pure('C04', 'base64.cpp', huge=3, wraps=ALLOC,
     rule='as C03, for the URL-safe alphabet with "." padding; non-trivial = non-empty, distinct by content')
CLOCK = ('time', 'clock_gettime', 'gettimeofday')
pure('C10', 'cache.cpp', wraps=CLOCK, rand=(8000, 1500000), fuzz=(5000, 1000000),
     rule='case = history of up to 400 sets, overwrites, erases, lookups and clock steps on a cache (four key/value types, limits 0 to 5000 bytes), '
          'compared with a list model after every step; all histories of 4 (thorough 5) operations over three keys; non-trivial = entries were '
          'dropped for room, distinct by operations')
pure('C11', 'cache.cpp', wraps=CLOCK, rand=(8000, 1500000), fuzz=(5000, 1000000),
     rule='case = history as for C10 with clock steps around the lifetime limit (0, 1..40 s, near SIZE_MAX); non-trivial = an entry expired, '
          'distinct by operations')
pure('C12', 'strings.cpp', huge=8,
     rule='case = text, needle or set, character given to all 20 search and span functions; all byte pairs, all texts of up to 5 '
          '(thorough 7) characters over {a, A, b, NUL, 0xC3} with all needles up to 2 (3), random and coverage-guided ones; '
          'non-trivial = text and needle non-empty, distinct by content')
pure('C13', 'tokens.cpp', huge=6,
     rule='case = text with delimiters, number list or number given to the splitting and parsing functions; all texts of up to 5 (thorough 7) '
          'characters over {comma, a, space, NUL, 7, -}; non-trivial = non-empty text, distinct by content')
pure('C14', 'printf.cpp', fuzz=(10000, 1000000),
     rule='case = format, arguments, limit and position given to one formatting function, compared with asprintf; every length around the '
          'powers of two and the internal buffer size with every relation of limit to length; non-trivial = every case, distinct by text, '
          'function, limit and position')
pure('C05', 'url.cpp', huge=4,
     rule='case = byte string encoded by all forms and decoded back, or text decoded by all forms; all byte pairs, all texts of up to 5 '
          '(thorough 7) characters over {%, 0, a, F, g, +, 0xE3}; non-trivial = non-empty, distinct by content')
pure('C06', 'url.cpp', huge=4,
     rule='case = text given to the three bounded helpers with exact, short, zero and ample buffers; all four-digit %u escapes, all texts of up '
          'to 4 (thorough 6) characters over {%, u, 4, d, backslash, x, +, 0xD0} with all small sizes; non-trivial = non-empty, distinct by content')
pure('C07', 'url.cpp', huge=4,
     rule='case = query string or header block parsed by sized and terminated forms into a map with earlier entries; all texts of up to 5 '
          '(thorough 7) characters over {=, &, a, :, CR, LF, NUL}; non-trivial = non-empty, distinct by content')
pure('C08', 'urlparser.cpp', huge=3,
     rule='case = byte range and flags given to create_absolute, then again from the result, over a non-empty and on an emptied object; all '
          'sequences of up to 4 (thorough 6) tokens from {/ . .. a ? # B.c /../ h.x.y} after three schemes; non-trivial = non-empty, distinct by content')
pure('C09', 'urlparser.cpp', huge=3,
     rule='case = history of up to 11 creations, resolutions, copies, assignments and destructions over four objects, all compared with a value '
          'model after every step; all token sequences as references against four parents; non-trivial = every history, distinct by its steps')
pure('C15', 'storage.cpp', args=dict(cpu=100), rand=(15000, 1500000), fuzz=(10000, 1000000),
     rule='case = up to 300 additions of strings sharing prefixes of every length (8/9 and 255/256 boundaries included, up to a full storage block) with '
          'slots of 0 to 5000 bytes, every slot filled and re-checked, enumeration compared; all orders of 4 (thorough 5) additions of 22 (27) strings; '
          'non-trivial = two or more stored strings, distinct by additions')
pure('C16', 'xml.cpp', rand=(2500, 400000), fuzz=(2000, 300000), huge=5,
     rule='case = XML document generated from known member values (attributes, elements, entities, character references, CDATA, comments, unknown '
          'elements, lists of hundreds, names sharing long beginnings, nested structures), loaded from string, buffer, file and random pieces and compared; broken documents and arbitrary texts '
          'judged by expat; every two-piece split and prefix of 40 documents, files of every size around 1..4 buffers; non-trivial = '
          'document with such a feature or a broken one, distinct by text')

pure('C29', 'gmtime.cpp', rand=(200000, 20000000), fuzz=(50000, 2000000),
     rule='case = time converted and compared with gmtime_r and an independent day count; every day of a 400 year cycle (first, last and another second, '
          'and one in a later cycle), every second of three days, random times up to the last year that fits; distinct by time')
pure('C30', 'viet.cpp', rand=(40000, 4000000), fuzz=(20000, 2000000),
     rule='case = text; every Unicode character alone and next to accented letters, with each character also cut off at the end, every two-byte text and '
          'starts of three-byte ones (thorough: all), random valid texts with cut-off endings and arbitrary bytes; distinct by text')
pure('C33', 'logarray.cpp', rand=(20000, 1000000), fuzz=(5000, 200000),
     rule='case = element type (16), array size (9), value; all bucket boundaries of all sizes and types; distinct by type, size and value')
pure('C32', 'random.cpp', wraps=('open', 'read'), rand=(6000, 400000), fuzz=(1000, 50000),
     rule='case = length and alphabet; two strings each, some with balance checks over 200000 characters; all lengths below 200 with alphabets of up to 40; '
          'groups of 24 new processes whose first strings are compared, some with a failing random device; non-trivial = non-empty, distinct by request')
PROPS["C32"]["jobs"].append(dict(name="processes", phase="custom", shards=4, cases=(20, 2000), args=dict(prop="C32")))
pure('C34', 'error.cpp', rand=(20000, 1000000), fuzz=(5000, 300000), extra_src=('cerror.c',),
     rule='case = format, arguments and error number; texts of every length around the buffer size, every system error number, copies, assignment and throwing; '
          'rounds of six threads building errors at once under the race detector; distinct by request')
PROPS['C34']['jobs'].append(dict(name='threads', phase='custom', variant='tsan', shards=2, cases=(30, 2000), args=dict(prop='C34')))

SOCK = ('socket', 'bind', 'listen', 'connect', 'accept', 'accept4', 'setsockopt', 'ioctl', 'fcntl')
pure('C31', 'socket.cpp', wraps=SOCK, rand=(40000, 4000000), fuzz=(20000, 2000000),
     rule='case = text parsed as an address (all combinations of 17 octet texts, every byte inserted anywhere, all texts of up to 8 (10) characters over '
          '{0,2,5,9,.}, random ones), or a conversation over loopback with random modes and addresses, rounds with each system call failing in turn, '
          'timeouts of 1 ms to 1.5 s measured, receives interrupted by signals; distinct by text or by modes')
PROPS['C31']['jobs'].append(dict(name='conversations', phase='custom', shards=8, cases=(60, 3000), args=dict(prop='C31')))


def custom(pid, harness, rule, jobs, wraps=(), assumptions=(), **kw):
    """jobs: (name, variant, shards, (quick, thorough) cases, extra job keys)"""
    js = []
    for k, (name, variant, shards, cases, extra) in enumerate(jobs):
        a = dict(dict(extra).pop('args', {}), prop=pid, seedoff=k * 7777, budget=(14, 600))
        js.append(dict(name=name, phase='custom', variant=variant, shards=shards, cases=cases, args=a,
                       **{x: y for x, y in dict(extra).items() if x != 'args'}))
    PROPS[pid] = dict(harness=harness, jobs=js, rule=rule, wraps=wraps, assumptions=list(assumptions), **kw)


THR = ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'pthread_cond_signal', 'pthread_cond_broadcast')
custom('C23', 'synque.cpp', wraps=THR,
       rule='case = history of up to 4 adding and 4 taking threads (single, batch, polling, wake-ups, sizes) on one queue, recorded with times and '
            'checked; blocked getters released by additions and signals; sequential histories against a list, also of 70 000 elements; distinct by the order of operations',
       jobs=[('threads-race-detector', 'tsan', 4, (40, 4000), {}), ('threads-shipped-flags', 'plain', 4, (250, 20000), {}),
             ('threads-address-sanitizer', 'asan0', 4, (100, 8000), {})])

SYS = ('dup', 'dup2', 'dup3', 'mkdir', 'mkdirat', 'flock', 'fstat', 'stat', 'ftruncate', 'unlink', 'setsid', 'mmap', 'close', 'open', 'openat',
       'write', 'pwrite')
custom('C24', 'logger.cpp', wraps=SYS + CLOCK,
       rule='case = up to 8 threads, or 2 to 4 processes of up to 4 threads, logging up to 400 lines each of up to 4000 bytes to one log (some over existing '
            'content) while it is rotated up to 12 times with delays around every system call; all files read back and compared with the lines '
            'issued; distinct by the order of writers in the files',
       jobs=[('threads-race-detector', 'tsan', 2, (400, 8000), {}), ("threads", "plain", 3, (1000, 30000), {}),
             ('processes', 'plain', 3, (400, 12000), {"args": dict(procs=4)})])
pure('C25', 'logger.cpp', wraps=SYS + CLOCK, rand=(2500, 200000), fuzz=None,
     rule='case = history of messages of every level and form at chosen times in eight time zones, thread namings, and successful and failing log openings '
          '(each system call failing in turn), every file compared with the expected lines; all level pairs, all two-character level names; '
          'non-trivial = every history, distinct by its steps')
custom('C26', 'signals.cpp', wraps=('localtime_r',),
       rule='case = life of a process of its own: initialisations of both forms over earlier dispositions, signals by every means (also as they really arise), '
            'mask changes, blocking calls under signals, storms over running code; flags, mask, results and process status compared with a model after '
            'each step; distinct by the steps',
       jobs=[('processes', 'plain', 4, (400, 40000), {}), ('processes-sanitized', 'asan0', 4, (200, 20000), {})])
custom('C27', 'pidfile.cpp', wraps=SYS,
       rule='case = race of 2 to 8 processes for a missing or empty pid file, or processes taking and removing it in turn (some killed inside an attempt at '
            'every call), with pauses around every system call and an observer reading the file; or one attempt over each state of the file with each call '
            'failing or writing short; distinct by the order and results of the attempts',
       jobs=[('processes', 'plain', 5, (400, 40000), {}), ('processes-sanitized', 'asan0', 3, (200, 20000), {})])
pure('C28', 'files.cpp', wraps=SYS, rand=(6000, 800000), fuzz=(3000, 300000),
     rule='case = path made in a scratch tree with files, directories and links in the way, or up to 12 openings onto and moves of descriptors over a table '
          'with holes, or a file mapped in every mode and size, with each system call failing in turn, tree, descriptor table and bytes compared; all paths '
          'of up to 6 (thorough 8) characters over {/ a . b}; non-trivial = non-empty, distinct by path, steps or contents')
PROPS['C28']['jobs'].append(dict(name='large-files', phase='custom', variant='plain', shards=1, cases=(40, 2000), args=dict(prop='C28')))
pure('C35', 'daemon.cpp', wraps=SYS, rand=(20000, 2000000), fuzz=(5000, 300000),
     rule='case = command line of up to 8 words parsed and compared with a model (all lines of up to 3, thorough 4, of 34 words), or a start: daemon or not, '
          'pid file none, missing, empty or owned, standard descriptors open or closed, any mask, each system call failing in turn, the surviving process '
          'observed from inside and outside, then stopped; distinct by words or by start')
PROPS['C35']['jobs'].append(dict(name='processes', phase='custom', variant='plain', shards=4, cases=(800, 80000), args=dict(prop='C35', budget=(12, 500))))
PROPS['C35']['jobs'].append(dict(name='processes-sanitized', phase='custom', variant='asan0', shards=2, cases=(300, 30000), args=dict(prop='C35', seedoff=5, budget=(12, 500))))

IPC = ('ftok', 'semget', 'semctl', 'semop', 'semtimedop', 'shmget', 'shmat', 'shmdt')
pure('C18', 'shmmap.cpp', wraps=SYS + IPC, rand=(4000, 800000), fuzz=(1500, 300000),
     rule='case = history of up to 400 operations (single, bulk, under explicit locks, fills to the brim, drains, clears) on a map of one of 16 shapes (two of more than 65 536 entries) through one or '
          'two connections with keys in chosen buckets, every result, size and iteration compared with an ordinary map; all histories of 4 '
          '(thorough 6) operations over 4 keys on the four smallest shapes; non-trivial = every history, distinct by its steps')
pure('C36', 'shmpool.cpp', rand=(12000, 1500000), fuzz=(4000, 500000),
     rule='case = history of up to 125 steps (single and bulk allocations, frees in any order, pushes, pops, clears, reattachments, refused attachments) on a '
          'pool of one of 11 or a stack of one of 6 shapes (of up to 70 000 objects) through three objects, over exact blocks or one file mapped at three addresses, sizes, contents and '
          'the memory between the blocks checked; all histories of 7 (thorough 10) steps of three small pools; distinct by steps and indexes')
pure('C37', 'sleep.cpp', wraps=('nanosleep', 'clock_nanosleep', 'usleep'), rand=(200000, 20000000), fuzz=None,
     rule='case = number of milliseconds whose request to the kernel is recorded (the first and last 1 000 000, thorough 20 000 000, and random ones), or a real '
          'sleep timed, or one interrupted by signals from another thread; distinct by number and time')
PROPS['C37']['jobs'].append(dict(name='real-sleeps', phase='custom', variant='plain', shards=2, cases=(100, 5000), args=dict(prop='C37', budget=(8, 300))))
pure('C38', 'oom.cpp', wraps=ALLOC + SYS + IPC + ('XML_ParserCreate', 'pthread_mutex_lock', 'pthread_mutex_unlock'), exh=False, rand=(6000, 600000), fuzz=(2000, 200000), plain=(3000, 300000),
     rule='case = operation (13 kinds) on an object in a random state, repeated with every allocation (malloc, calloc, realloc, operator new, those of expat), copy of '
          'an element and callback failing in turn, alone and with all following ones; results, contents, locks, mappings, descriptors and the heap compared, and the '
          'operation tried again; non-trivial = a fault fired, distinct by operation, state and fault points')
custom('C17', 'shmconc.cpp', wraps=SYS + IPC,
       rule='case = round of up to 64 operations (single, bulk, size, clear, iteration, updates and reads under explicit locks) by 2 to 8 clients in up to 4 processes '
            'of up to 3 threads on a map of 2 to 5 entries with slowly copied values, delays around the lock operations and signals; the '
            'recorded history with real times is searched for a legal order ending in the contents found; lock holders watched; distinct by order of '
            'clients, operations and results',
       jobs=[('clients-shipped-flags', 'plain', 6, (60, 6000), {}), ('clients-sanitized', 'asan0', 2, (30, 3000), {})])
custom('C19', 'shmconn.cpp', wraps=SYS + IPC,
       rule='case = sequence of up to 45 connections (fitting, mismatched, repeated, without key file, with a system call failing), disconnections, destructions, uses and '
            'other processes over two maps of nine geometries, mappings counted and contents compared after each step; or a process standing still at '
            'each point of its connection while others connect and hold locks; or 2 to 7 processes making the map at once; distinct by the steps',
       jobs=[('orders', 'asan0', 3, (700, 60000), {'args': {'mode': 'orders'}}), ('standing-still', 'plain', 3, (1, 1), {'args': {'mode': 'standing'}}),
             ('crowds', 'plain', 2, (500, 40000), {'args': {'mode': 'crowd'}})])
custom('C20', 'shmkill.cpp', wraps=SYS + IPC,
       rule='case = operation of 11 kinds on a map of one of 6 shapes in a random state, executed one machine instruction at a time; each distinct state of the '
            'shared memory on the way is handed to survivors that read, iterate, refill, erase and clear in three orders; real deaths at '
            'chosen instructions with others waiting for the lock; deaths at full speed; distinct by state and operation',
       jobs=[('stepped-shipped-flags', 'plain', 3, (400, 40000), {'args': {'mode': 'step'}}), ('stepped-unoptimised', 'plain0', 3, (400, 40000), {'args': {'mode': 'step'}}),
             ('stepped-clang', 'asan0', 1, (200, 20000), {'args': {'mode': 'step'}}), ('full-speed', 'plain', 1, (400, 40000), {'args': {'mode': 'storm'}})])
pure('C21', 'shmq.cpp', wraps=SYS + IPC, rand=(4000, 600000), fuzz=(1500, 200000),
     rule='case = history of up to 160 steps (puts of fitting, oversized and refusing records, flushes, fills, takes, gets, registers, reconnects) of two writers '
          'and two readers on a ring of 1 to 200 boxes of 1 to 10000 bytes with fixed and variable size records, compared with a model after '
          'each step; all histories of 6 (thorough 8) operations on rings of 2 and 3; or up to 3 writing and 3 reading processes with delays and signals whose '
          'recorded flushes and takes are checked for exactly-once, order, justified discards; distinct by steps or by delivery order')
PROPS['C21']['jobs'].append(dict(name='processes', phase='custom', variant='plain', shards=4, cases=(120, 12000), args=dict(prop='C21', budget=(10, 500))))
PROPS['C21']['jobs'].append(dict(name='very-many-boxes', phase='custom', variant='plain', shards=2, cases=(24, 2000), args=dict(prop='C21', big=1, budget=(18, 300))))
PROPS['C21']['jobs'].append(dict(name='processes-sanitized', phase='custom', variant='asan0', shards=2, cases=(60, 6000), args=dict(prop='C21', seedoff=5, budget=(10, 500))))
custom('C22', 'shmqf.cpp', wraps=SYS + IPC,
       rule='case = sequence of up to 40 connections (fitting, mismatched, huge, of no boxes, repeated, without key file, with a system call failing), disconnections, '
            'flushes and takes (some with a call failing) and other processes over two queues; a process standing still at each point of an operation while '
            'another, under signals, tries each operation; deaths at each instruction that changes the queue, survivors judging the ring; storms of signals and '
            'deaths; 2 to 7 processes making the queue at once; distinct by steps, points of death or outcome',
       jobs=[('orders', 'asan0', 1, (600, 60000), {'args': {'mode': 'orders'}}), ('standing-still', 'plain', 2, (1, 20), {'args': {'mode': 'standing'}}),
             ('stepped-shipped-flags', 'plain', 2, (60, 20000), {'args': {'mode': 'step'}}), ('stepped-unoptimised', 'plain0', 1, (60, 20000), {'args': {'mode': 'step'}}),
             ('stepped-very-many-boxes', 'plain', 2, (4, 400), {'args': {'mode': 'step', 'big': 1}}),
             ('storms', 'plain', 1, (60, 20000), {'args': {'mode': 'deaths'}}), ('crowds', 'plain', 1, (300, 40000), {'args': {'mode': 'crowd'}})])


def threads(pid, cases):
    """Calls that share nothing, by several threads at once, against the results one thread got.
    Not under the race detector: two threads filling the same table with the same values keep these properties."""
    PROPS[pid]['jobs'].append(dict(name='threads-at-once', phase='custom', variant='plain', shards=3, cases=cases, harness='threads.cpp', wraps=(), extra_src=(),
                                   args=dict(prop=pid, budget=(4, 120))))


for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C28', 'C29', 'C30', 'C31', 'C32',
           'C33', 'C36'):
    threads(_p, (400, 100000))
