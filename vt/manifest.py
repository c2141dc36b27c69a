"""python3 -m vt.manifest: writes MANIFEST.json from the list below."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: structured random generation with shrinking, in C, "
CHECKS = {
    "C01": (PBT + "differential against an independent model of ISAP v2.0, random and comparison-guided",
            "all 51 builds of all implementations (x86, AVX-512, ARM under emulation); a search over generated inputs, not a proof"),
    "C02": (PBT + "round-trip and interoperability with an independent model, random and comparison-guided",
            "all 51 builds; a search over generated inputs"),
    "C03": (PBT + "24 classes of tampering with genuine messages, the model decides what is a forgery, random and comparison-guided",
            "all 51 builds; a search over generated forgeries"),
    "C05": (PBT + "inputs of 0-15 bytes against guard pages", "all 51 builds; every length, generated contents"),
    "C06": (PBT + "guard pages, read-only inputs, fill patterns, AddressSanitizer and UBSan",
            "all 51 builds plus 51 sanitizer builds; over-reads inside the page of the start of a buffer are seen by the sanitizer builds only (not those of ARM assembly statements)"),
    "C07": (PBT + "random buffer offsets against the model, plus the alignment sanitizer",
            "all 51 builds plus 51 sanitizer builds; ARM faults are those the emulator raises, and any access of a type that needs more alignment than it has"),
    "C08": (PBT + "differential against an independent model of Ascon-Hash, random and comparison-guided", "all builds of crypto_aead_hash"),
    "C09": ("stateful property-based testing: generated histories of calls, compared call by call with a stateless model, bursts of repeated and forged calls, processes of up to 69 000 calls",
            "all 51 builds; histories of 2-17 calls, and long ones up to 69 000"),
    "C04": (PBT + "forged messages with recognisable plaintext; memory, registers and buffers searched for it during and after the call",
            "all 51 builds plus 87 coverage builds; plaintext held in transformed form (masked, bit-interleaved) would be missed, the windows searched are 8 bytes"),
    "C10": ("concurrency property-based testing: generated schedules of 2-3 calls forced at compiler-inserted switch points, sequential result as oracle",
            "builds with coverage callbacks at -O0 and -O1 of all 51 (ARM assembly has switch points only around it), AVX-512 by instruction (all of x86 in the thorough tier); a search over schedules of 2-3 calls, not all of them"),
    "C11": (PBT + "metamorphic: pairs of calls differing only in secrets must execute the same instructions and touch the same addresses",
            "coverage builds at -O0 and -O1 and the real -O3 binaries by instruction, ARM assembly included; time taken inside an instruction is not observed"),
    "C12": (PBT + "generated lengths at and beyond 2^16 to 2^37 against the model continued from stored states",
            "lengths from 2^31 are processed completely only on the faster builds; elsewhere cut off after a time"),
    "C13": (PBT + "the differential oracles of C01, C02, C03 and C08 on builds with other compilers, levels, targets and switches, MemorySanitizer included",
            "about 330 builds in the quick tier, about 970 in the thorough one"),
    "C14": (PBT + "metamorphic: near-miss and random wrong tags must be indistinguishable in what the comparison touches",
            "the hardened-comparison variants at -O0 and -O1, and their real binaries by instruction, ARM included"),
    "C15": (PBT + "random registers at entry compared after the call, and fault injection: calls interrupted at drawn instructions by generated other calls",
            "the real binaries of all 51 builds; an interrupt comes at up to 31 drawn instructions of a call, floating-point registers are compared on x86 only by their modes"),
    "C16": (PBT + "stack painting and heap interposition, long inputs against the maximum over short inputs",
            "all 51 builds; stack compared with a slack of 256 bytes"),
}
NA = {
    "C17": "power consumption and fault behaviour of devices are not observable in generated inputs on a host; the functional parts of the claim (re-keying, verification before decryption, hardened comparison, constant-time behaviour) are C01, C03, C04, C11 and C14",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[])
    for p in props:
        if p in CHECKS:
            t, note = CHECKS[p]
            m["checks"].append(dict(property=p, quick_cmd=f"VERIF_TIER=quick python3 run.py {p}",
                                    thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p}",
                                    evidence_file=f"evidence/{p}.json", technique=t, level="exploration", level_note=note))
        else:
            m["not_applicable"].append(dict(property=p, reason=NA.get(p) or "the check is still being built"))
    m["notes"] = "Replay a violation with: python3 run.py --replay replays/<file>. Known findings and repaired defects: known_findings.txt."
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


main()
