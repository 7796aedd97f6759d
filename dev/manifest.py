#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json
T="deterministic simulation with fault injection (seeded search over schedules, faults and histories)"
note={
"C01":"Seeded search: random messages and signing configurations signed by the real signer, relayed by benign edits, verified by the real verifier and by an independent RFC 6376 verifier. Covers what was explored, not all inputs. Trusts OpenSSL, libsodium and the reference model.",
"C02":"Seeded search over tampering sequences on signed mail, with faulty reads and lookups and retries; any pass the reference model rejects is a violation. Trusts the reference model and the crypto libraries.",
"C03":"Seeded search over signature fields as other signers lay them out (made by the independent reference signer), with and without a defect, through benign relays; verdict and class are compared with the reference model.",
"C04":"Seeded search over bodies, split points of the source, start offsets, limits and repeated passes; the bytes handed to the digest are compared with the reference canonical form.",
"C05":"Seeded search over the position, pass and kind of failing reads, seeks and position queries, with retries; any result other than a temporary error while a read failed is a violation.",
"C06":"Seeded search over lookup outages, delays, empty and split replies and exceptions from the resolver, interleaved over several threads, with recovery.",
"C07":"Seeded search over well-formed and corrupted reply packets (compression, other record types, lies in counts and lengths, truncation, stale bytes behind the reply) given to the real resolver code, under AddressSanitizer.",
"C08":"Seeded search over histories of published key records (rotation, revocation, restriction) interleaved with verifications.",
"C09":"Seeded search over simulated clock values, jumps and delays inside and between operations, including the 2^31 and 2^32 boundaries. Clock values before 1970 are outside.",
"C10":"Operations of a random history (8 to 26 operations, 1 in 100 of 200 to 420; up to 10 of them compared) are repeated alone in a pristine process with the same inputs, key records and clock; the outcomes must be equal. Sequences explored at random.",
"C11":"Two to six real threads run one at a time under a seeded scheduler that preempts at instrumented branches and at every read, lookup, clock, allocation, release and crypto call of the library; each outcome is compared with the same operation alone. Preemption is at compiled branches of /repo's code, not inside OpenSSL or libc, and memory is sequentially consistent.",
"C12":"Seeded search over failing allocations and failing OpenSSL and libsodium calls, single and repeated, at any point of an operation; never a wrong pass or signature, a crash or a hang, and the repetition must give the normal result.",
"C13":"Random histories, with errors, faults and failing allocations, are repeated five or more times in one process; live heap blocks allocated by the library and open resolver states must not grow from round to round.",
"C14":"Signed mail and key records damaged by random corruption sequences, under AddressSanitizer and UndefinedBehaviorSanitizer, with a bound on executed branches and allocated bytes against input size, on 1 MB stacks, and only the library's own exceptions allowed.",
"C15":"Messages with 2 to 60 signatures (made by the library and by the reference signer, valid, broken, malformed, expired) checked in random orders and repeatedly, with lookup failures for some; each verdict is compared with the reference model.",
"C16":"Chains of hops that seal, relay and modify messages; ARC and DKIM verdicts and instances are compared with the reference model at each hop.",
"C17":"The real command-line tool runs as a process on scratch files whose opens and reads fail, end short or are interrupted as the seed says; output and exit status are compared with the reference model.",
}
na={
"N01":"Pure function of one string with no concurrency, time, I/O or other party; a simulator has no schedule or fault to vary. (Its calls are exercised in C10 and C11 for independence of history and interleaving only.)",
"N02":"Pure function of one string with no concurrency, time, I/O or other party to simulate. (Exercised in C10 and C11 for independence of history and interleaving only.)",
"N03":"Pure functions of one string with no concurrency, time, I/O or other party to simulate. (Exercised in C10, C11 and C12 for history, interleaving and failing calls only.)",
"N04":"Pure function of one string with no concurrency, time, I/O or other party to simulate.",
}
m={"version":1,"setup_cmd":"./build.sh","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: every seam is at the link boundary (wrapped clock, resolver, crypto, allocation and file calls), at the std::istream and resolver-callback interfaces the library offers, and in compiler instrumentation of /repo's own sources."}
for l in open('properties.jsonl'):
    i=json.loads(l)["id"]
    if i in note:
        m["checks"].append({"property":i,"quick_cmd":"./run_check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./run_check.sh "+i,"technique":T,"level":"exploration","level_note":note[i]})
    else: m["not_applicable"].append({"property":i,"reason":na[i]})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write('\n')
