#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; properties without a check become not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "the Go type checker, go/ssa and the analysis itself"
VG = "abstract interpretation of SSA into gated value graphs, compared with the specified layout after normalisation"
VT = "Joins are merged and loops widened to summaries, no path is enumerated and nothing is run; code outside the modelled Go subset is reported as undecided. Trusts " + T + " and the library models."
C = {
 "C01": ("error typestate over SSA control flow", "Every call that can fail because of I/O or user code is followed to every exit of its function; sound up to the trusted tools. Trusts " + T + " and that sentinel error variables are non-nil."),
 "C11": ("call-graph cycles with guard recognition", "Every recursive component reachable from decoding or ABI-driven coding is shown to contain a counting depth check; recursion through user code is assumed to use the decoder it is given. Trusts " + T + "."),
 "C14": ("inclusion-based points-to analysis", "For every exported operation, writes, retention and result aliasing of caller memory are over-approximated. Trusts " + T + ", the effect table for library functions, and the io contracts."),
 "C15": ("taint analysis of map order, clock, zone and environment", "Covers every function of the codec packages. Trusts " + T + "."),
 "C16": ("points-to analysis of package variables", "Over-approximates every write through package-level state after initialisation. Trusts " + T + " and the effect table for library functions."),
 "C22": ("reader-usage lint with typestate on SSA", "Every read from a reader in the codec is one that fails when it is short. Trusts " + T + " and the documented behaviour of io.ReadFull and io.CopyN."),
 "C02": (VG, "Each of the encoder's and decoder's primitive methods is compared for all values and all inputs with its layout. " + VT),
 "C03": (VG, "Each chain type's marshal and unmarshal method is compared for all values and all inputs with its layout; lists by a loop summary for every length. " + VT),
 "C04": (VG, "The reflective coder is specialised to a fixed list of composite Go types covering every kind and tag; for each of them all values and all inputs are covered. " + VT),
 "C05": (VG, "Every builtin type name with every value of its Go type and every input, and every wrong Go type out of a list of 100. " + VT),
 "C06": (VG, "A fixed set of definitions covering suffixes, bases, variants, aliases and actions, for all values and inputs; lists of variable-size elements are decoded for counts 0 to 3. " + VT),
 "C07": (VG, "Every chain type, encoded and decoded directly, by pointer, as field and as element, and with an arbitrary custom callback. " + VT),
 "C13": (VG, "Every UnmarshalText and UnmarshalJSON of the chain package, for every text and every previous contents; asset parsing itself is an uninterpreted function of the text, base58 too. " + VT),
 "C19": (VG, "Every text, key type and payload; base58 conversion and the hash functions are uninterpreted functions. " + VT),
 "C17": (VG, "Every string below 2^32 bytes and every 64-bit value, against the packing written down character by character. " + VT),
 "C18": (VG, "Every value, every precision and name, and every symbol text; asset texts by number of characters in the amount and place of the point (quick: up to 4 and 19 to 21 characters, thorough: up to 8 and 18 to 22), for all characters and all names. Numbers are uninterpreted functions of their digits. " + VT),
 "C20": (VG, "Every instant, every value and every text; time.Parse and Time.Format are uninterpreted functions of text, layout and zone, instants count in half seconds of 41 bits. " + VT),
 "C23": (VG, "Every value and every text; numbers up to 200 bits, the decimal text of a number is an uninterpreted function of it. " + VT),
 "C25": (VG, "Every message and every action; the hash functions of the standard library and of pkg/ripemd160 are uninterpreted functions of the bytes written. " + VT),
 "C26": (VG, "Every 128-bit value, every big integer in range and every text of a number up to 200 bits. " + VT),
 "C42": (VG, "Every 128-bit value; relies on math/big reading back the decimal text it writes. " + VT),
 "C24": (VG, "Every input cut off anywhere, for the fixed-size primitives, 23 chain types (keys and signatures of fixed size), 25 builtin ABI names, a list of struct types covering every tag, and a definition covering every suffix; list counts 0 to 3. " + VT),
 "C08": (VG + "; panic conditions as obligations on the graph", "Every primitive read, every chain type, the composite list of C04 (list counts up to 4096), every ABI definition of C06 and 39 odd type names over a malformed definition, for arbitrary input that may end at any read; every text and JSON rendering of arbitrary values with base58 uninterpreted. Too large graphs are analysed again with loops widened and the other types' methods summarised. " + VT),
 "C09": (VG + "; panic conditions as obligations on the graph", "Every exported function with a text argument and every UnmarshalText and UnmarshalJSON, for every text; big integers in base58 are unknown. " + VT),
 "C10": (VG + "; allocation sizes as obligations on the graph", "Every allocation reached by decoding arbitrary input as in C08 is at most 65536 elements; growth by append is not an allocation on the word of a length. " + VT),
 "C21": (VG + " over linear combinations of digits", "Every text of up to 56 characters (thorough: 112), by length and number of leading ones; big.Int arithmetic is modelled as exact linear combinations. " + VT),
 "C27": (VG + " over sums modulo 2^32", "Every message of 0 to 136 bytes (thorough: 260), whole and in a list of pieces, with sums taken in between, prefixes and resets; differences are confirmed at a point before they are reported. " + VT),
 "C28": ("constant propagation through the generator, then " + VG, "The text generated for 94 struct types (every builtin as field, list, array, pointer and optional, seven chain types, orders and mixtures) is computed from the generator's source by constant propagation, type-checked, and its methods are compared with the layout for all values and inputs. Encoding of lists of int and uint, whose elements may be rejected one by one, is not compared. " + VT),
 "C41": (VG, "Every amount by number of digits (1 to 19), decimals (0 to 18) and sign, every name by number of letters (quick: 3, and 1 to 7 for a list of shapes; thorough: all), for all digits and letters; strconv is trusted to write numbers without leading zeros and to read back what it writes. " + VT),
 "C12": (VG, "Every chain type and the composite list of C04, decoded into a destination with arbitrary previous contents. " + VT),
}
NA = {
 "C40": "needs the correctness of base conversion by repeated division over unbounded byte sequences, an inductive numeric argument outside of what dataflow analysis can settle",
 "C43": "running time depends on run-time quantities and on allocator and library behaviour that no static bound in reach covers",
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh --build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": "static analysis: " + C[i][0], "level": "other", "level_note": C[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
