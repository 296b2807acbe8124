CXXSTD = "-std=c++17"
FLAVOURS = {
    "asan": dict(
        cxx=["clang++"],
        cflags=[CXXSTD, "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
        plain=[CXXSTD, "-O1", "-g"],
        ldflags=["-fsanitize=address,undefined"],
    ),
    "opt": dict(
        cxx=["g++"],
        cflags=[CXXSTD, "-O2", "-g"],
        plain=[CXXSTD, "-O2", "-g"],
        ldflags=[],
    ),
}
# memory accesses and synchronisation calls report to harness/dsched.cc, which takes the place of the sanitizer's runtime
FLAVOURS["sched"] = dict(
    cxx=["clang++"],
    cflags=[CXXSTD, "-O1", "-g", "-fsanitize=thread"],
    plain=[CXXSTD, "-O2", "-g"],
    plain_sources=["dsched.cc"],
    ldflags=[],
)
FLAVOURS["tsan"] = dict(
    cxx=["clang++"],
    cflags=[CXXSTD, "-O1", "-g", "-fsanitize=thread"],
    plain=[CXXSTD, "-O1", "-g"],
    ldflags=["-fsanitize=thread"],
)
AUX = {}


def B(name, flavour, *sources, **kw):
    return dict(name=name, flavour=flavour, sources=["engine.cc"] + list(sources), **kw)


CHECKS = {
    "C01": dict(
        bins=[B("c01", "asan", "c01.cc"), B("c01h", "opt", "c01h.cc", workers=2)],
        technique="model-based property testing (rapidcheck histories against byte-string models) under ASan/UBSan",
        note="Random histories of up to 50 operations over 4 buffers, sizes up to 70 kB, and single growths beyond 1 GiB; trusts the sanitizers and the model. No claim beyond the explored histories.",
    ),
}
CHECKS["C21"] = dict(
    bins=[B("c21", "asan", "c21.cc")],
    technique="property-based testing (rapidcheck) of split/join/strip against reference implementations and algebraic laws, ASan/UBSan",
    note="Random and near-exhaustive tiny inputs; where left and right runs overlap, strip may remove from either end first.",
)
CHECKS["C22"] = dict(
    bins=[B("c22", "asan", "c22.cc")],
    technique="property-based testing (rapidcheck) against 128-bit arithmetic, an independent calendar and a virtual clock with early/late sleeps",
    note="Lists of at least two numbers (shorter ones are rejected by an assertion); time zones of fixed offset and with summer-time rules; clocks whose ticks convert exactly to nanoseconds.",
)
for _i in range(6):
    AUX["plug%d.so" % _i] = dict(cmd=["gcc", "-shared", "-fPIC", "-O1", "-DID=%d" % _i], sources=["aux/plugin.c"])
CHECKS["C24"] = dict(
    bins=[B("c24", "asan", "c24.cc", ldflags=["-rdynamic"])],
    aux=["plug%d.so" % _i for _i in range(6)],
    env={"LD_LIBRARY_PATH": "{aux}"},
    technique="model-based property testing (rapidcheck histories over generated plugins, reference-count model), ASan/UBSan",
    note="Plugins compiled for the check; the search path is LD_LIBRARY_PATH. Symbol binding between libraries is not judged.",
)
CHECKS["C23"] = dict(
    bins=[B("c23", "opt", "c23.cc")],
    technique="model-based property testing (rapidcheck) of signal histories on several threads and child processes",
    note="Eight standard and two real-time signals, three threads, up to four child processes; the kernel is trusted. Existence checks on processes of other users are not judged.",
)
CHECKS["C02"] = dict(
    bins=[B("c02", "asan", "c02.cc")],
    technique="model-based property testing (rapidcheck) with fault injection into interposed read/write, real pipes, fifos, files and sockets, ASan/UBSan",
    note="SIGPIPE is ignored, as the reactor does. Loopback only; other error numbers than EPIPE and ECONNRESET are not injected.",
)
CHECKS["C03"] = dict(
    bins=[B("c03", "asan", "c03.cc")],
    technique="model-based property testing (rapidcheck) of object histories against a descriptor table, with interposed close() and canary descriptors, ASan/UBSan",
    note="Six objects per history, descriptors below 120.",
)
CHECKS["C04"] = dict(
    bins=[B("c04", "asan", "c04.cc")],
    technique="model-based property testing (rapidcheck) against the system's own view of every socket, with fault injection into accept, ASan/UBSan",
    note="Loopback addresses and unix sockets only. Names of unnamed unix sockets are not judged.",
)
CHECKS["C05"] = dict(
    bins=[B("c05", "asan", "c05.cc")],
    technique="model-based property testing (rapidcheck) of datagram histories against per-receiver queues, with fault injection into sends and receives, ASan/UBSan",
    note="Loopback only, within the receivers' buffer space. Unix receivers report a path: their own (as documented in the code) or the sender's is accepted.",
)
CHECKS["C06"] = dict(
    bins=[B("c06", "asan", "c06.cc")],
    technique="model-based property testing (rapidcheck) of event-loop histories against readiness reported by poll(2), ASan/UBSan",
    note="One thread, two loops, pipes and unix sockets. When a descriptor is active for both directions and only a hang-up shows, either handler may be called; so may one deactivated (not removed) in the same iteration.",
)
CHECKS["C07"] = dict(
    bins=[B("c07", "sched", "dsched.cc", "c07.cc"), B("c07n", "tsan", "c07.cc", cflags=["-DPV_NATIVE"], archive=True)],
    technique="property-based testing (rapidcheck) of generated thread scripts over endless loops under generated schedules (controlled scheduler, real epoll, virtual time), and on real threads under ThreadSanitizer",
    note="1 or 2 loops, up to 3 other threads, up to 40 descriptors. A loop is not destroyed while a request to stop it is still running; a request that throws for lack of descriptors is outside the property.",
)
CHECKS["C08"] = dict(
    bins=[B("c08", "sched", "dsched.cc", "c08.cc"), B("c08n", "asan", "c08.cc", cflags=["-DPV_NATIVE"]), B("c08t", "tsan", "c08.cc", cflags=["-DPV_NATIVE", "-DC08_NAME=\"tsan\""], archive=True)],
    technique="property-based testing (rapidcheck) of generated traffic scripts against position-coded byte streams, under generated schedules (controlled scheduler over real sockets) and on real threads under ASan/UBSan and ThreadSanitizer",
    note="Up to 10 connections, 4 workers, 3 connectors, about 3 MB per write.",
)
CHECKS["C09"] = dict(
    bins=[B("c09", "sched", "dsched.cc", "c09.cc"), B("c09n", "asan", "c09.cc", cflags=["-DPV_NATIVE"]), B("c09t", "tsan", "c09.cc", cflags=["-DPV_NATIVE", "-DC09_NAME=\"tsan\""], archive=True)],
    technique="property-based testing (rapidcheck) of generated connection histories and faults against a per-connection life-cycle automaton, under generated schedules (controlled scheduler over real sockets) and on real threads under ASan/UBSan and ThreadSanitizer",
    note="Up to 16 peers, 4 workers.",
)
CHECKS["C10"] = dict(
    bins=[B("c10", "sched", "dsched.cc", "c10.cc"), B("c10n", "asan", "c10.cc", cflags=["-DPV_NATIVE"]), B("c10t", "tsan", "c10.cc", cflags=["-DPV_NATIVE", "-DC10_NAME=\"tsan\""], archive=True)],
    technique="property-based testing (rapidcheck) of generated request, connection and shutdown histories against an exact account of attempts, callbacks, loads, threads and descriptors, under generated schedules (controlled scheduler over real sockets) and on real threads under ASan/UBSan and ThreadSanitizer",
    note="Up to 96 connections, 4 workers, 4 connectors, 4 hosts.",
)
CHECKS["C11"] = dict(
    bins=[B("c11", "sched", "dsched.cc", "c11.cc"), B("c11n", "asan", "c11.cc", cflags=["-DPV_NATIVE"])],
    technique="property-based testing (rapidcheck) of generated task scripts under generated thread schedules (controlled scheduler switching at memory accesses, random walk and priority based), and natively under ASan/UBSan",
    note="Up to 5 pool threads, 3 producers, 40 tasks; sequentially consistent interleavings only. A task added by another thread concurrently with stop need not run, but then never does.",
)
CHECKS["C12"] = dict(
    bins=[B("c12", "sched", "dsched.cc", "c12.cc"), B("c12n", "asan", "c12.cc", cflags=["-DPV_NATIVE"])],
    technique="property-based testing (rapidcheck) of thread and pool scripts under generated thread schedules in virtual time (controlled scheduler), and natively under ASan/UBSan",
    note="Up to 4 threads or a pool of 6 (48 natively); cancellation is deferred. A cancelled thread may or may not have finished its body, the others must have. Running one object twice is not judged.",
)
CHECKS["C13"] = dict(
    bins=[B("c13", "sched", "dsched.cc", "c13.cc"), B("c13n", "tsan", "c13.cc", cflags=["-DPV_NATIVE"], archive=True)],
    technique="model-based property testing (rapidcheck) of generated task sets against the exact list of due instants, under virtual time with overruns and clocks of several resolutions (controlled scheduler), and in real time under ThreadSanitizer",
    note="Up to 6 tasks, frequencies between 0.01 and 250000 Hz, up to 4000 triggers. Periods are whole nanoseconds rounded down, as the code defines them. Empty task sets and frequencies that are not positive or above 1 GHz are outside the property; how long destruction may take is not judged.",
)
CHECKS["C14"] = dict(
    bins=[B("c14", "sched", "dsched.cc", "c14.cc"), B("c14n", "tsan", "c14.cc", cflags=["-DPV_NATIVE"], archive=True), B("c14p", "opt", "c14p.cc")],
    technique="property-based testing (rapidcheck) of lock and guard scripts against a model of holders, under generated thread schedules (controlled scheduler), natively under ThreadSanitizer, and between processes",
    note="Up to 4 threads or processes and 4 locks; the pthread primitives underneath are trusted in the controlled runs and exercised in the native ones. Unlocking a spinlock or read-write lock nobody holds is undefined and not judged.",
)
CHECKS["C15"] = dict(
    bins=[B("c15", "sched", "dsched.cc", "c15.cc"), B("c15n", "tsan", "c15.cc", cflags=["-DPV_NATIVE"], archive=True), B("c15p", "opt", "c15p.cc")],
    technique="property-based testing (rapidcheck) of wait, notify, open and arrive scripts under generated thread schedules with spurious wake-ups and deadlock detection (controlled scheduler), natively under ThreadSanitizer, and between processes",
    note="Up to 6 waiters, 10 arrivals, 5 processes. Destroying a primitive while somebody is leaving it is not judged.",
)
CHECKS["C18"] = dict(
    bins=[B("c18", "sched", "dsched.cc", "c18.cc"), B("c18n", "asan", "c18.cc", cflags=["-DPV_NATIVE"])],
    technique="property-based testing (rapidcheck) of logging scripts under generated thread schedules in virtual time (controlled scheduler) with fault injection into write, and natively under ASan/UBSan; the whole output is parsed against what was logged",
    note="Up to 4 threads, 2 loggers, 20 lines of up to 240 kB. Failing writes other than EINTR and EAGAIN and lines begun inside another line are not judged.",
)
AUX["sub_helper"] = dict(cmd=["gcc", "-O1"], sources=["aux/sub_helper.c"])
CHECKS["C19"] = dict(
    bins=[B("c19", "asan", "c19.cc", workers=16)],
    aux=["sub_helper"],
    technique="property-based testing (rapidcheck): generated programs, arguments, environments and inputs run as real subprocesses, everything they yield compared with a simulation",
    note="Up to 1.2 MB per stream and process. Commands cannot carry spaces or NULs inside an argument. Output of objects is compared up to NUL bytes, as the interface carries no length; exec_cmd's in full. A PATH in the given environment is not generated.",
)
CHECKS["C20"] = dict(
    bins=[B("c20", "asan", "c20.cc", workers=16)],
    aux=["sub_helper"],
    technique="model-based property testing (rapidcheck histories over real subprocesses, kernel state as the reference) with descriptor exhaustion and failing forks, ASan/UBSan",
    note="Up to 4 subprocesses at once per history, 16 operations. A subprocess waited for by somebody else may be reported in any way that is not the end of the caller. Zombies of objects destroyed before the end of their process are not judged.",
)
CHECKS["C16"] = dict(
    bins=[B("c16", "sched", "dsched.cc", "c16.cc"), B("c16n", "asan", "c16.cc", cflags=["-DPV_NATIVE"])],
    technique="model-based property testing (rapidcheck) of handle histories with failing system calls, of racing openings under generated schedules (controlled scheduler, switches at every system call), and of real processes opening at once",
    note="Up to 5 names and handles, 3 MB, 6 processes. In the scheduled runs threads stand for processes. Opening an existing memory with a larger size may be refused or extend it.",
)
CHECKS["C17"] = dict(
    bins=[B("c17", "sched", "dsched.cc", "c17.cc"), B("c17n", "asan", "c17.cc", cflags=["-DPV_NATIVE"])],
    technique="model-based property testing (rapidcheck) of handle histories against token counts, of threads under generated schedules with interrupted waits (controlled scheduler), and of real processes under signals",
    note="Up to 3 names, 5 handles, 6 threads, 5 processes. Token counts beyond the system's maximum and acquiring several tokens as one indivisible step are not judged.",
)
# calls into the system that harness/c25.cc may refuse
_W25 = """recvmsg sendmsg recv send dup socket pipe pipe2 mkfifo setsockopt getsockopt getsockname getpeername bind listen connect accept accept4 recvfrom sendto read write
epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait shm_open shm_unlink ftruncate fstat flock mmap sem_unlink sem_wait sem_trywait sem_post
waitpid kill sigaction sigpending sigwait pthread_sigmask pthread_create pthread_join pthread_detach pthread_cancel
pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_setprotocol pthread_mutexattr_setpshared pthread_mutex_init
pthread_condattr_init pthread_condattr_setpshared pthread_cond_init pthread_cond_wait pthread_cond_signal pthread_cond_broadcast
pthread_rwlockattr_init pthread_rwlockattr_setpshared pthread_rwlock_init pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock
pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_spin_init pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
fork raise open fcntl ioctl sem_open""".split()
CHECKS["C25"] = dict(
    bins=[B("c25", "asan", "c25.cc", ldflags=["-Wl,--wrap=" + f for f in _W25])],
    technique="property-based testing (rapidcheck) of generated operation histories with fault injection: one system call of each operation is refused, and what is left is compared with what was there before; ASan/UBSan",
    note="One refused call per operation, 76 functions. Calls that cannot fail in a way the caller could act on (close, munmap, destroying) are not refused. Named files and addresses may stay changed after a failure; objects may not.",
)
