#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
NOTE = {
 "C01": ("generated symbols decoded against an independent encoder model (proptest, stratified over all version/level/mask)",
   "Every (version, level, mask) is visited many times per run; contents and fill levels are sampled. Trusts the reference model refqr.rs, which is cross-validated by its own reference decoder."),
 "C02": ("fault injection at codeword level into generated symbols, encoder model as oracle (proptest)",
   "Every version and level, up to and at capacity in every block; error patterns are sampled."),
 "C03": ("differential fuzzing of error correction against a bounded-distance reference decoder (proptest)",
   "Includes algebraically adversarial errors (first k syndromes vanish). Sampled, not exhaustive."),
 "C04": ("differential test of the reported information against the reference decoder (proptest)",
   "Every version and level; damage patterns are sampled."),
 "C05": ("enumeration of all 15-bit read-outs of each copy plus generated pairs, nearest-word oracle (proptest)",
   "Each copy is enumerated completely (the other copy sampled); pairs are sampled."),
 "C06": ("grammar-based generation of malformed payloads against a reference parser (proptest)",
   "Sampled streams of every version; trusts the reference parser."),
 "C16": ("stateful model-based testing of read histories against a bit vector (proptest)",
   "Sampled histories; reads of zero bits are outside of the property."),
 "C08": ("rendered pictures at generated positions, sizes and block configurations, encoder model as oracle (proptest)",
   "Every version and level; positions, scales and contents are sampled. Pictures whose data imitates a finder beside a true one are excluded by an independent scanner (about 2.5 percent)."),
 "C09": ("metamorphic test over quarter turns and angles of rendered codes (proptest)",
   "Angles up to acos(1-1/d) from the axes; same exclusion as C08, plus pictures on which a plain scanner measures the finder size too badly to tell the version."),
 "C10": ("composed pictures of several codes, expected multiset of texts as oracle (proptest)",
   "Versions 1 to 14, 2 to 21 codes; same exclusion as C08."),
 "C11": ("rendered pictures with known finder centres given to the detector (proptest)",
   "Every version and orientation; same exclusion as C08."),
 "C13": ("generated images against a block mean model, with locality, transposition and offset relations (proptest)",
   "Where readings of the documentation differ about the window's last block, only pixels on which they agree are compared."),
 "C19": ("rendered codes with generated stains within capacity, reference decoder as oracle (proptest)",
   "Every version and level; stains are sampled; same exclusion as C08."),
 "C07": ("fuzzing of the whole pipeline with composed pictures: no panic, decoders with and without information agree (proptest)",
   "Pictures up to 400 (thorough 700) pixels a side; a run that is killed or does not return is traced to its case."),
 "C12": ("drawn codes under affine and perspective maps handed to the extractor with their true centres, the drawn symbol as oracle (proptest)",
   "Every version; distortions are sampled within the tolerances stated in DESIGN.md."),
 "C14": ("metamorphic test over colours, illumination, pixel formats and views of rendered codes (proptest)",
   "Contrast, gradients and formats are sampled; same exclusion as C08."),
 "C15": ("stateful test of builder histories with recording stand-ins against the same components composed by hand (proptest)",
   "Sampled histories of up to 8 calls, with up to 3 pictures each."),
 "C17": ("stateful test of decoding histories: repetition, fresh decoders, concurrent threads and another process (proptest)",
   "Sampled histories; concurrency is what the operating system schedules."),
 "C18": ("differential test between builds with and without the debug images, with faults of the disk injected (proptest)",
   "Pictures up to 260 (thorough 500) pixels a side, seven states of the temporary folder."),
 "C21": ("slightly distorted drawn codes through the whole pipeline, encoder model as oracle (proptest)",
   "Every version and level; rotation, stretch, skew and perspective are sampled together within the stated limits; same exclusion as C08, plus pictures on which a plain scanner measures the finder size too badly to tell the version."),
 "C22": ("blurred and grainy drawn codes through the whole pipeline, encoder model as oracle (proptest)",
   "Every version and level; blur, grain, shades and angles are sampled within the stated limits; same exclusion as C21."),
 "C23": ("generated binary pictures and arrangements of finder patterns given to the detector, invariants of every location and a geometric model of the expected ones (proptest)",
   "Pictures up to about 460 (thorough 760) pixels a side; triples between 'clearly' and 'clearly not' are left open."),
 "C24": ("fuzzing of the extractor with generated locations on generated binary pictures, sampling model for version 1 (proptest)",
   "Pictures up to 400 (thorough 700) pixels a side; coordinates up to 1e12."),
 "C25": ("differential test between a process with a logger of any level and one without (proptest)",
   "Pictures up to 300 (thorough 500) pixels a side; the logger formats every record it gets."),
 "C26": ("codes composed onto pictures of anything, encoder model as oracle (proptest)",
   "Versions 1 to 12 at 3 to 8 pixels per module; surroundings are sampled; same exclusion as C08."),
 "C27": ("spoilt function patterns and remainder bits of generated symbols, encoder model as oracle (proptest)",
   "Every version, level and mask; contents and damage are sampled."),
 "C28": ("stateful test of points and displacements against plain coordinates, and of module data against its pattern (proptest)",
   "Sampled walks of up to 12 operations; finite coordinates."),
 "C20": ("pictures without a valid code, absence of texts and results as oracle (proptest)",
   "Sampled pictures up to 400 (thorough 700) pixels a side."),
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in NOTE:
        t, n = NOTE[i]
        fuzzed = i not in ("C17", "C18", "C25")
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique=t + ("; thorough adds coverage-guided libFuzzer search over the same cases" if fuzzed else ""), level="exploration", level_note=n))
na = [dict(property=i, reason="check not built yet") for i in ids if i not in NOTE]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
  notes="All checks go through the public API of /repo's crate; no hooks. Replays: ./replay.sh out/replays/<id>.json")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
