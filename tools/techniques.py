#!/usr/bin/env python3
import json, os
T = {
"C01": ("property-based testing: generated archives from an independent encoder vs. decoded tree", "random search over well-formed archives; trusts the AES crate and the encoder's reading of the format"),
"C02": ("property-based testing: metamorphic (given vs. detected key/version) and refusal of wrong versions", "random search; inherently ambiguous archives are recognised by an independent decoder and skipped"),
"C03": ("property-based testing: generated PKG2 archives per profile, stateful cache histories, planted-hash completeness", "random search; brute-force profiles are mostly reached through the profile cache, a few cases search the whole 32-bit space"),
"C04": ("property-based testing: generated property trees, independent encoder, node-by-node comparison", "random search over well-formed images plus truncations"),
"C05": ("property-based testing: round trip and agreement of all string read paths", "random search over texts, keys, length forms and storage forms"),
"C06": ("stateful property-based testing of growth histories against an independent AES chain", "random operation sequences; trusts the aes block cipher"),
"C07": ("property-based testing: differential between three readers and a reference decoder, out-of-range positions included", "random search over buffers and positions"),
"C08": ("property-based testing: differential between direct lookup and parse-then-walk", "random search over trees and paths"),
"C09": ("property-based testing: generated link graphs against a sequential resolution model", "random search over link graphs, self-containing and mutually containing links included; links that lead above the image are not judged"),
"C10": ("stateful model-based testing of tree operations", "random operation sequences against a plain tree model"),
"C11": ("stateful model-based testing of parse/unparse/walk histories on archives", "random operation sequences against the stored tree"),
"C12": ("property-based testing: generated link targets, pixel comparison with an independent decoder", "random search over link forms and parse states"),
"C13": ("property-based testing: pixel-by-pixel comparison with an independent decoder; sizes and chunk splits generated", "random search over sizes, contents and storage forms; BC7 is compared with an independent decoder of the published format"),
"C14": ("property-based testing: generated sound blocks, three output paths compared with the stored payload", "random search"),
"C15": ("property-based testing: round trip of encrypted scripts and raw payloads", "random search; texts for which the key cannot be told are recognised and skipped"),
"C16": ("property-based testing: generated v1 archives from an independent encoder; stream cipher differential", "random search; the reference cipher was written from the published Snow 2.0 algorithm"),
"C17": ("property-based testing: generated v2 archives from an independent encoder; ChaCha20 differential", "random search"),
"C18": ("property-based testing: JSON round trip and structural comparison with the model tree", "random search over trees of ordinary properties"),
"C19": ("structure-aware mutation fuzzing of archives, images and ms files with panic, abort and allocation oracles", "random search over mutated and arbitrary bytes in a child process with bounded memory"),
"C20": ("property-based testing: generated multi-file installations against a union model", "random search over directory layouts in a scratch folder"),
"C21": ("concurrent property-based testing: generated thread programs under a controlled scheduler with generated schedules (random, bounded preemption, switching at nested locks), and on real threads, vs. what one thread observes", "samples schedules; switches happen at lock operations of the library (hook wz_sched); deadlocks are detected exactly in a controlled run"),
"C22": ("property-based testing: generated image files, key detection and refusal", "random search"),
"C23": ("differential property-based testing across five builds of the library", "random search; the same cases run in each feature build and their digests are compared"),
"C24": ("property-based testing: every kind question asked of every kind of node, built by hand and parsed", "random search over kinds and values"),
"C25": ("property-based testing: arbitrary and well-formed headers vs. an independent reading of the four header forms", "random search; where a PKG1 file without version field reads as one with it, the format's own rule decides"),
}
json.dump({k: list(v) for k, v in T.items()}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json"), "w"), indent=1)
