import os
# property -> [(scenario profile, share of the search time)]; descriptions for the evidence files
PROFILES = {
    "C01": [("echo", 5), ("huge", 1)],
    "C02": [("bcast", 1)],
    "C03": [("stream", 1)],
    "C04": [("hs", 1)],
    "C05": [("viol", 1)],
    "C06": [("ping", 1)],
    "C07": [("gone", 2), ("churn", 1)],
    "C08": [("probe", 3), ("churn", 1)],
    "C09": [("memory", 3), ("churn", 1)],
    "C10": [("progress", 1)],
    "C11": [("idle", 1)],
    "C12": [("rwtimeout", 1)],
    "C13": [("pmd", 3), ("pmdbc", 1)],
    "C14": [("stop", 1)],
    "C15": [("pool", 1)],
    "C16": [("ring", 1)],
    "C17": [("limits", 6), ("huge", 1)],
    "C18": [("alloc", 1)],
    "C19": [("syscalls", 1)],
    "C20": [("tls", 1)],
    "C21": [("startup", 1)],
    "C22": [("conf", 1)],
    "C25": [("tlspol", 1)],
    "C26": [("rpm", 1)],
    "C27": [("push", 1)],
    "C28": [("exts", 1)],
    "C24": [("poll:" + p, 1) for p in ("echo", "bcast", "stream", "gone", "churn", "alloc", "stop", "idle", "syscalls", "push", "exts", "tls")] + [("port:" + p, 1) for p in ("hs", "viol", "pmd", "memory", "startup", "limits")] + [("poll:viol", 1), ("avx2:viol", 1), ("avx2:echo", 1)],
}
# other build configurations of the code under test (the standard one is for the processor at hand): the AVX2 codecs; the poll() back end with the SSE2 codecs; no OpenSSL, no rpmalloc and the portable codecs
VARIANTS = {"": "", "avx2": "-march=x86-64-v3", "poll": "-DUSE_POLL -march=x86-64-v2", "port": "-UUSE_OPENSSL -UUSE_RPMALLOC -march=x86-64 -U__SSE2__ -I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim", "portable")}
QUICK_SCALE = {"C24": 2.5}   # of the 45 s of a quick check
RULES = {}
REAL = ["src/*.c (server, workers, event loop, sessions, frames, headers, HTTP, ring buffer, thread pool, configuration, JSON, codecs, logging)", "subprotocols/echo", "subprotocols/broadcast", "extensions/permessage-deflate", "zlib", "OpenSSL (both the server's and the TLS clients' side)", "main()"]
STUB = ["kernel: sockets, epoll, poll, pipes, clocks, signals, files (simulated)", "pthreads: threads, mutexes, condition variables, rwlocks (simulated, seeded scheduler)", "rpmalloc/malloc (simulated heap with validity tracking; C26 runs the real rpmalloc.c on simulated page mappings)", "clients (simulated WebSocket peers with an independent codec)"]
ASSUMPTIONS = ["sequentially consistent memory: weak-memory reorderings are not simulated", "threads are preempted at synchronisation operations, system calls and instrumented memory accesses", "an OpenSSL call of the server is atomic to the scheduler, and only allocations at OpenSSL's interface are made to fail (not its internal ones)", "the poll() back end and the portable codecs are simulated in C24 only; the AVX-512 codecs run only where the processor has AVX-512 (then everywhere but in C24); kqueue and wolfSSL code is not built", "the compiler used is gcc -O1; bugs that only other optimisation levels expose are not seen"]
