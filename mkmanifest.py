#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json,os,subprocess
T={
"C01":("exploration","model-based round trip over generated insertion sequences (proptest-driven), read back at the returned addresses",
 "boundary lengths x algorithm x hint enumerated; everything else sampled; contents up to 16 MiB"),
}
T.update({
"C02":("exploration","model-based round trip over generated schemas and entries, read through AnyBuilder and the typed builders",
 "integer boundaries, inline prefix lengths and store kinds enumerated; directed cases at and beyond the field widths; everything else sampled"),
"C03":("exploration","reference ordering and lookup model over generated sorted stores; binary search, linear scan and model compared (differential)",
 "all strings of tiny alphabets, integer boundaries; everything else sampled; up to 4000 entries"),
"C15":("exploration","model-based check over generated reference graphs (chains, cycles, cross-store, forests) and sort keys",
 "up to 66000 entries per store, 3 stores"),
})
T.update({
"C14":("exploration","differential testing of the written bytes against an independent decoder over generated containers, plus reference containers of the pinned version",
 "BasicCreator and per-pack creators, all packagings and algorithms; 60 committed reference containers; bytes outside any block are unconstrained"),
"C16":("exploration","property-based testing of the stored form, seen by the independent decoder, over generated insertions with duplicates and near-duplicates",
 "compression x hint x fill x length table enumerated; contents up to 8.5 MB; conflicting hints among identical contents are not judged"),
})
T.update({
"C10":("exploration","metamorphic testing over generated logical containers: every packaging (bare files, one file, concatenations in any order, nested, embedded) reads to the same logical dump",
 "up to 6 content packs; packagings, orders, prefixes and decoys at recorded locations sampled"),
"C11":("exploration","model-based testing over generated containers and subsets of unavailable packs",
 "every subset of up to 4 packs enumerated for directed containers; everything else sampled; foreign non-jubako files at a recorded location are not judged"),
})
T.update({
"C12":("exploration","model-based testing of generated rewriting sequences; the whole file is compared byte for byte with an independently computed one",
 "up to 60 rewritings, 40 packs, any UTF-8 location; library function and jbk program; embedded manifests may be refused"),
})
T.update({
"C13":("exploration","stateful model-based testing: generated sequences of cuts, conversions and reads over a pool of views, each compared with the model range",
 "release and debug-assertion builds; contents up to 3 MB; requests outside of a view are not generated"),
})
HOOKS=subprocess.run("git -C /repo log --format=%h --grep='^verif:' --reverse",shell=True,capture_output=True,text=True).stdout.split()
T.update({
"C06":("fault_enumeration","fault injection over generated containers: every truncation length and every byte with several masks on small ones, seeded multi-byte, range, garbage and truncation damages; everything is read after each damage in a supervised process, in both build profiles",
 "storage damage only (no recomputed checksums); about 900 containers and 450000 damages in the quick run; blocked = no end within 60 s in two runs"),
})
T.update({
"C05":("fault_enumeration","fault injection over generated containers: every byte with several masks on small ones, seeded ranges and almost-right checksums on small and medium ones; differential oracle: all the observations of the reader before and after the alteration",
 "lengths kept, checksums not recomputed; about 1300 containers and 570000 alterations in the quick run"),
})
T.update({
"C04":("fault_enumeration","fault injection over generated containers: every covered byte with several masks on small ones, seeded ranges, bytes altered together with the CRC-32 of their block; oracle: no check concerned succeeds, all succeed on intact containers",
 "lengths kept; about 5000 containers and 600000 alterations in the quick run; see assumptions for recomputed CRC-32"),
})
T.update({
"C07":("exploration","schedule exploration of the real reader: every interleaving of the decoding thread with 3 readers of a 3-chunk cluster (all combinations of chunks) under a controlled scheduler, sampled schedules of longer histories, and seeded delays with 2 to 16 threads on packs with more clusters than cache slots; every read is compared with the stored bytes, memory is guarded",
 "interleavings are those of the hook points (before/after decoding a chunk, before/after a wait, first use of a cluster); other schedules sampled with delays"),
})
T.update({
"C08":("exploration","generated insertion sequences created under forced completion orders (workers held and released one at a time: first, last, random, one held), seeded delays in every worker and writer step, 1 to 15 workers; the pack is read back entirely, compared and checked",
 "scheduling is forced in the Progress callbacks and the reads of inputs; up to 46 groups of contents, 4 MiB clusters; the number of processors is simulated"),
})
T.update({
"C09":("fault_enumeration","fault injection over generated creations in traced child processes: death and I/O errors at every byte written and at every file operation (small containers), seeded sequences of faults (bigger ones), panics, drops and short inputs; oracle: the destination is absent, unchanged or a complete container",
 "process death, not power loss; about 92000 creations in the quick run; packagings x what is there before"),
})
NA=[]
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks=[]
for i in ids:
    if i not in T: 
        NA.append({"property":i,"reason":"check under construction"}); continue
    lv,te,no=T[i]
    checks.append({"property":i,"quick_cmd":f"VERIF_TIER=quick ./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
      "technique":"property-based testing: "+te,"level":lv,"level_note":no,"evidence_file":f"evidence/{i}.json"})
m={"version":1,"setup_cmd":"./check.sh --setup","hooks":{"guard":"cfg(jubako_verif), set by RUSTFLAGS=\"--cfg jubako_verif\"","enable":"RUSTFLAGS=\"--cfg jubako_verif\"","source_commits":HOOKS if "HOOKS" in globals() else []},
   "checks":checks,"not_applicable":NA}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
