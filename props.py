"""Per-property configuration of the checks (workers per build variant, number of plans per tier)."""
COMMON = {
    "real": ["every .c file of /repo/src and /repo/WBMatrix/src, compiled from the working tree (build A: AddressSanitizer, build B: -O3 as shipped, build T: a yield point before every memory access)",
             "glibc stdio buffering (fopencookie streams over the simulated disk)", "OpenSSL libcrypto's AES and BIGNUM code called by the library"],
    "stub": ["disk and system calls (in-memory inodes, per-call faults)", "OpenMP and pthread runtime (coroutines under the seeded scheduler)", "clock, time(), srand/rand", "malloc family (failing, moving, filled with seeded garbage)", "stack contents at every library call (seeded garbage)", "process crash and restart (forked process ends, disk survives)", "console output"],
    "assumptions": ["memory model: sequential consistency at the granularity of single memory accesses (build T); weaker hardware orderings are not simulated",
                    "a crash is a process crash: what a completed write system call transferred survives, user-space buffers do not; power loss is not simulated because the library promises nothing about it"],
}
def tier(A=0, B=0, T=0, na=0, nb=0, nt=0, wall=150, det=0):
    w = {v: n for v, n in (("A", A), ("B", B), ("T", T)) if n}
    return {"workers": w, "plans": {"A": na, "B": nb, "T": nt}, "wall": wall, "det": det}
PROPS = {
    "P01": dict(quick=tier(2, 2, 4, 550, 1000, 1300), thorough=tier(2, 2, 4, 8000, 16000, 20000, wall=700),
                rule="A plan is a seeded history of parallel and serial GCM calls on one or two contexts; it runs once without preemption and then under several seeded schedules (few, many, bursts of or periodic preemptions) with seeded OpenMP team sizes.",
                sig="(cipher, direction, parallel/serial, blocks, partial, in place, continued stream)", probes={0: "huge messages"}),
    "P02": dict(quick=tier(3, 3, 2, 1500, 3000, 1000), thorough=tier(4, 3, 1, 16000, 30000, 2000, wall=700),
                rule="A plan is a seeded history of messages (set IV, AAD, chunks, finish) on up to three contexts, sequentially interleaved or concurrent; it runs fault-free and then with seeded schedules and failing allocations. One plan passes a chunk of more than 2^31 bytes (or additional data of more than 2^29 bytes) in one call.",
                sig="(cipher, direction, parallel/serial, blocks, partial, in place, continued stream)", probes={0: "huge messages"}),
    "P03": dict(quick=tier(4, 4, 0, 440, 1040), thorough=tier(4, 4, 0, 4000, 9000, wall=700),
                rule="A plan is a seeded history of GCM file encryptions (all six ciphers) over a simulated disk; it runs fault-free and then with 10 seeded fault sequences (open, read, write, seek, close errors, short and interrupted transfers, full disk) placed on the system calls the fault-free run made.",
                sig="(cipher, file size class, fault kind, system call type, outcome)", probes={1: "successful operations", 2: "failed operations", 3: "operations with an I/O error", 4: "files over 2^31 bytes"}),
    "P04": dict(quick=tier(4, 4, 0, 600, 1400), thorough=tier(4, 4, 0, 5000, 12000, wall=700),
                rule="A plan encrypts files, alters them in seeded ways (flip, truncate, extend, splice, other key, IV, additional data, length field) and decrypts them; fault-free and with 6 seeded I/O fault sequences.",
                sig="(cipher, tampering kind, file size class, fault kind, outcome)", probes={1: "successful operations", 2: "refused or failed operations", 3: "operations with an I/O error", 4: "files over 2^31 bytes"}),
    "P05": dict(quick=tier(4, 4, 0, 400, 960), thorough=tier(4, 4, 0, 4000, 9000, wall=700),
                rule="A plan is a history of file encryptions and decryptions over a disk that also holds bystander files, with I/O faults and process crashes before, after and in the middle of system calls, followed by a retry on a healthy disk.",
                sig="(cipher, direction, fault kind, crash point type, retry outcome)"),
    "P06": dict(quick=tier(4, 4, 0, 300, 600), thorough=tier(4, 4, 0, 2500, 5000, wall=700),
                rule="A plan exports white-box SM4 keys to files, tampers with or tears them, imports them in the same or a restarted process into fresh or used contexts, fault-free and with 5 seeded I/O fault and crash sequences.",
                sig="(direction, rounds, file state, receiving context state, outcome)"),
    "P07": dict(quick=tier(4, 4, 0, 1000, 2800), thorough=tier(4, 4, 0, 5000, 14000, wall=700),
                rule="A plan stores and loads key contexts of every kind through the key store functions, in several processes, fault-free and with 8 seeded I/O fault and crash sequences.",
                sig="(kind, operation, requested size class, fault kind, outcome)"),
    "P08": dict(quick=tier(4, 4, 0, 600, 1200), thorough=tier(4, 4, 0, 3000, 6000, wall=700),
                rule="A plan exports white-box SM4 contexts to byte streams, ends the exporting process or wipes its memory, imports the stream (intact or with an inconsistent length or round count) into fresh or used contexts, fault-free and with failing allocations.",
                sig="(direction, rounds, stream state, receiving context state, outcome)"),
    "P09": dict(quick=tier(4, 4, 0, 750, 1600), thorough=tier(4, 4, 0, 2500, 5500, wall=700),
                rule="A plan is a seeded history of table generations (algorithm, direction, dummy rounds, key length, reuse) under a seeded clock, seeded rand() and seeded memory contents; 1200 blocks (120 for the self-equivalence version) are compared with the reference cipher after each.",
                sig="(algorithm, direction, dummy rounds, reuse, key length)", probes={0: "wbaes", 1: "wbsm4", 2: "se_wbsm4"}),
    "P10": dict(quick=tier(2, 2, 4, 1600, 4800, 3200), thorough=tier(3, 3, 2, 8000, 22000, 6000, wall=700),
                rule="A plan is a seeded history of WBGCM-EE and WBGCM-MASK messages on up to three contexts over pooled and freshly generated tables, sequentially interleaved or concurrent; it runs without preemption and then under seeded schedules. EE is compared with AES-GCM; for MASK the per-position byte bijection of the tables is read off one crafted encryption and every later output and tag is compared with AES-GCM under that bijection.",
                sig="(mode, direction, blocks, partial, in place, continued stream)", probes={0: "fresh EE tables", 1: "fresh MASK tables"}),
    "P11": dict(quick=tier(3, 3, 2, 2400, 7000, 2400), thorough=tier(3, 3, 2, 16000, 45000, 16000, wall=700),
                rule="A plan is a seeded history of CBC encryptions and decryptions (all ciphers, in place, too-small and over-sized outputs, moved reallocations, seeded memory contents) on up to four slots, sequential or concurrent; fault-free, under seeded schedules and with failing allocations.",
                sig="(cipher, blocks, remainder, in place, own or foreign ciphertext)", probes={0: "messages over 2^31 bytes"}),
    "P12": dict(quick=tier(3, 3, 2, 2400, 3200, 2400), thorough=tier(3, 3, 2, 16000, 20000, 16000, wall=700),
                rule="A plan is a seeded history of SM3 init, update, final and one-shot calls on up to four contexts (also dirty and reused ones, and messages of more than 2^32 bits), interleaved or concurrent under seeded schedules.",
                sig="(bytes buffered mod 64, update length mod 64, whole blocks)", probes={0: "messages over 2^32 bits", 1: "single updates of 2^29 bytes and more"}),
    "P13": dict(quick=tier(3, 3, 2, 5000, 14000, 2000), thorough=tier(3, 3, 2, 14000, 40000, 10000, wall=700),
                rule="A plan is a seeded history of FF1/FF3 encryptions and decryptions on up to four contexts (all ciphers, radix 2 to 36 and invalid ones, tweaks of 0 to 70 bytes, strings of 0 to 600 and single ones of up to 4097 characters, strings with characters outside the alphabet) over seeded memory contents, sequential or concurrent; each result is compared with an independent FF1/FF3 computation.",
                sig="(cipher, algorithm, direction, radix, length, tweak length)", probes={0: "round trips", 3: "refused strings"}),
    "P14": dict(quick=tier(3, 3, 2, 5000, 14000, 2000), thorough=tier(3, 3, 2, 14000, 40000, 10000, wall=700),
                rule="As P13 with the MAC contexts: the tag of a computation is recorded and compared wherever the same key, tweak and text occur again (other context, other memory contents, decryption side); changed ciphertexts and tweaks must change it.",
                sig="(cipher, algorithm, direction, radix, length, tweak length)", probes={0: "round trips", 1: "changed ciphertexts", 2: "changed tweaks", 3: "refused strings"}),
    "P15": dict(quick=tier(3, 3, 2, 4800, 14000, 2000), thorough=tier(3, 3, 2, 16000, 45000, 10000, wall=700),
                rule="A plan is a seeded history of phone, ID-card and Chinese-text encryptions and decryptions (with, without, short and over-long samples, unsupported characters) on up to three application contexts over seeded memory contents, sequential or concurrent, compared with an independent computation.",
                sig="(kind of text, direction, cipher, FFX, length, processed or refused, sample)", probes={0: "round trips", 3: "refused requests"}),
    "P16": dict(quick=tier(2, 2, 4, 286, 572, 832), thorough=tier(1, 1, 6, 2500, 5000, 16000, wall=750),
                rule="A plan gives two to four threads one to three jobs each (block calls, key setup, CBC, serial and parallel GCM, WBGCM, SM3, FF1/FF3 and MACs, application FPE, file encryption, key files, table generation); it runs without preemption and then under four seeded schedules; in build T a preemption can fall before every memory access, half of the schedules aim at writes to process-wide variables.",
                sig="(job, cipher, variant, size class)", probes={10: "wbaes generated", 11: "wbsm4 generated", 12: "se_wbsm4 generated", 13: "wbgcm_ee generated", 14: "wbgcm_mask generated", 22: "refused inputs"}),
    "P17": dict(quick=tier(4, 4, 0, 600, 1600), thorough=tier(4, 4, 0, 4000, 10000, wall=700),
                rule="A plan is a seeded history of jobs over the whole API; it runs fault-free and then six times with seeded failing allocations (single ones, several, or every one from some point on) placed on the allocations the fault-free run made; a call that reports failure is repeated with memory available and must then succeed.",
                sig="(job, cipher, variant, size class)", probes={10: "wbaes generated", 11: "wbsm4 generated", 12: "se_wbsm4 generated", 13: "wbgcm_ee generated", 14: "wbgcm_mask generated", 20: "success in spite of a failed allocation", 21: "failures reported and repeated", 22: "refused inputs"}),
    "P18": dict(quick=tier(4, 4, 0, 600, 1800), thorough=tier(4, 4, 0, 4000, 11000, wall=700),
                rule="A plan is a seeded history of table generations under a seeded clock (also stopped, jumping back, near 0 and 2^32) and pseudo-random sequence; a generation that exceeds 40 s of CPU time (100 times the usual cost) is a violation.",
                sig="(algorithm, direction, dummy rounds, reuse, key length)", probes={0: "wbaes", 1: "wbsm4", 2: "se_wbsm4", 3: "wbgcm_ee", 4: "wbgcm_mask"}),
    "P19": dict(quick=tier(4, 4, 0, 900, 2200), thorough=tier(4, 4, 0, 4000, 10000, wall=700),
                rule="A plan is a seeded history of jobs over the whole API (contexts, modes, files, key files, table generation, FPE); it runs fault-free and then six times with seeded failing allocations and I/O faults placed on the allocations and system calls the fault-free run made; after every call and every job the simulator's ledger of live blocks, big numbers and open files is compared with what it was before.",
                sig="(job, cipher, variant, size class)", probes={10: "wbaes generated", 11: "wbsm4 generated", 12: "se_wbsm4 generated", 13: "wbgcm_ee generated", 14: "wbgcm_mask generated", 20: "success in spite of a fault", 21: "failures reported and repeated", 22: "refused inputs"}),
    "P20": dict(quick=tier(3, 3, 2, 1500, 4500, 1800), thorough=tier(3, 3, 2, 16000, 60000, 24000, wall=700),
                rule="A plan is a seeded history of WBMatrix calls of all sizes (inverse pairs, affine pairs and their mixes, permutations, inverses of drawn matrices of full and deficient rank, block sums, algebra) in up to three slots, sequential or concurrent, over seeded clock, rand() and memory contents; every result is compared with bit-wise linear algebra.",
                sig="(size, operation, shape of the drawn matrix)"),
    "P21": dict(quick=tier(4, 4, 0, 2400, 9000), thorough=tier(4, 4, 0, 20000, 90000, wall=700),
                rule="A plan is a seeded history of statements (init, rows, deinit) of one to three sessions in a simulated MySQL server (both versions; constant and varying arguments, NULLs, unterminated, long and malformed values), sequential or concurrent; it runs fault-free and then with seeded failing allocations or schedules; values are compared with the library's own application functions, and after the last deinit nothing may remain allocated.",
                sig="(server version, mode, null pattern, malformation, sample, length, outcome)", probes={0: "values returned", 1: "refused statements", 2: "rows with NULL", 3: "values over 255 bytes"}),
}
