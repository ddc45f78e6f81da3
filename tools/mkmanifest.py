"""Writes MANIFEST.json. DONE lists the properties with a registered check."""
import json
DONE = {
 "P01": ("bounded-exhaustive model checking of write+parse against a tree model", "every tree up to the stated size, one-axis sweeps beyond; larger trees are outside the bound"),
 "P02": ("bounded-exhaustive model checking of displayed identities against a tree model", "every tree with identities up to the stated size, all 32 display settings"),
 "P03": ("explicit-state breadth-first search over real formatter states in lockstep with a layout model", "every reachable state of every tree up to the stated size"),
 "P04": ("explicit-state search; every reachable formatter state is rendered and parsed back", "every reachable state of every tree up to the stated size"),
 "P05": ("bounded-exhaustive model checking of layouts over every width limit", "every tree up to the stated size, every width limit up to beyond the text"),
 "P06": ("bounded-exhaustive exploration of parser inputs; every error compared with an independent line table", "every text of the stated families (character strings, token strings, line strings, one-character edits of valid texts, every Unicode scalar); longer texts are outside the bound"),
 "P07": ("bounded-exhaustive comparison of the parser with a reference reader of the single-line grammar", "every single-line text over the stated alphabets up to the stated length and every one-character edit of small valid texts"),
 "P08": ("bounded-exhaustive exploration of whitespace placements and layouts of small trees", "all fillings for the smallest trees, all pairs of changed gaps for larger ones"),
 "P09": ("bounded-exhaustive exploration of line-oriented documents against a document model", "every document up to the stated number of items, every style axis, every malformed line at every place"),
 "P10": ("bounded-exhaustive model checking of string values through text", "every string up to the stated length over the characters that matter to the notation, every Unicode scalar alone and at string edges, in every place a string can stand"),
 "P11": ("bounded-exhaustive model checking of byte arrays through text", "every byte array up to the stated length, every single byte and pair at every offset of the base-91 groups"),
 "P12": ("bounded-exhaustive comparison of number ordering, equality and hashing with exact arithmetic", "every pair and triple of a boundary set of numbers of all three kinds"),
 "P13": ("bounded-exhaustive comparison of number conversions with exact arithmetic", "every 8- and 16-bit value, every f32 (thorough), boundary sets of the wider types"),
 "P14": ("bounded-exhaustive comparison of number reading and writing with exact arithmetic", "every text up to the stated length over the number alphabet; every number of the boundary sets written and read"),
 "P15": ("bounded-exhaustive model checking of equality, order and map histories against a reference equality", "every pair and triple of small trees, every insertion history up to the stated length"),
 "P16": ("bounded-exhaustive model checking of encode+decode: every type of the data model up to a size x every boundary value", "types up to the stated number of nodes; members take all boundary values one at a time, two otherwise"),
 "P17": ("bounded-exhaustive model checking of encode, write, parse and decode over types, values and configurations", "types up to the stated number of nodes under every identity setting and 4 widths"),
 "P18": ("bounded-exhaustive comparison of decoding with a model of what a value holds: every small tree x every small type", "every tree and every type up to the stated sizes"),
 "P19": ("bounded-exhaustive exploration of conversion and mutation histories against a model", "every history up to the stated length on every small tree with every mix of owned and borrowed leaves"),
 "P20": ("bounded-exhaustive model checking of navigation against a tree model", "every tree up to the stated size, every link of every node"),
 "P21": ("bounded-exhaustive exploration of accessor calls and mutation histories against a plain model", "every accessor on every small value; every mutation history up to the stated depth"),
 "P22": ("bounded-exhaustive model checking of names against the rule", "every name up to the stated length over a boundary alphabet, every Unicode scalar in every position"),
 "P23": ("bounded-exhaustive model checking of direct conversion against a model", "every value up to the stated size over all supported types, every tuple and array length"),
 "P24": ("bounded-exhaustive exploration of repetition and nesting families with a bound on processor time", "every unit of the stated number of tokens repeated up to 30 times; the bound is far above what polynomial cost takes"),
 "P25": ("bounded-exhaustive model checking of the text of a value over trees, configurations and buffers", "every tree up to the stated size, 4 identity settings, several widths, 9 buffers"),
 "P26": ("bounded-exhaustive comparison of encoding with a model of the documented forms; all call histories on a map", "all data up to the stated number of nodes with failing members anywhere, every ASCII character in names, all map histories up to the stated length"),
 "P27": ("breadth-first search over all states of the formatter; each state's text compared line by line with a reference writer made from the documentation", "every layout and identity state of all trees up to the stated number of nodes; blank lines and the spelling of single primitives are left open"),
 "P28": ("exhaustive enumeration of the build configurations; every case of a bounded space is executed in each and the transcripts are compared", "8 feature sets x 2 kinds of build; all cases of the stated families in every configuration that has the features"),
}
REASON = "no check is registered yet"
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "/verif/setup.sh",
 "checks": [],
 "not_applicable": [],
 "notes": "No hooks: everything is observed through the public interface. All checks are run by /verif/run.sh, which rebuilds the harness in /verif/harness against /repo. A violation's replay file names the command that re-runs the one case.",
}
for p in props:
    if p in DONE:
        m["checks"].append({
            "property": p,
            "quick_cmd": "/verif/run.sh %s quick" % p,
            "thorough_cmd": "/verif/run.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": DONE[p][0], "level": "model_checking", "level_note": DONE[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": REASON})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
