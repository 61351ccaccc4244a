import contextprop, scanprops, typesprop, historyprop, concprop, builtinprop, catalogprop, oldprop

MAIN = {p: scanprops.main for p in scanprops.QUICK}
T = 'TLA+ specification, TLC: bounded model checking of the spec + trace validation of generated scans of the real code'
NOTES = {}
for p in MAIN:
    NOTES[p] = (T, 'Exhaustive within the stated bounds for the specification; the real code is compared with the specification on every generated '
                   'scan (seeded), so a deviation outside the generated families can be missed. Trusts TLC, the Go toolchain and the Unicode tables.')
MAIN['P18'] = contextprop.main
NOTES['P18'] = (T + '; documents composed of scanned parts validated against a specification of composition',
                'Documents of up to megabytes; the answers for the parts are themselves compared with the specification. Seeded.')
MAIN['P12'] = typesprop.main
NOTES['P12'] = ('TLA+ specification of the type algebra, TLC: exhaustive laws over all declared types + trace validation of recorded calls',
                'All 16384 pairs of declared types are merged by the real code and compared; String for all values below 1024, every single bit and '
                'random 64-bit values; ParseType for all lists of two fields and generated longer ones and number spellings.')
MAIN['P14'] = historyprop.main
NOTES['P14'] = ('TLA+ specification of the API over time, TLC: behaviours generated from the spec replayed in the real code and the recorded states validated',
                'Every history of 4 steps of a small instance and seeded longer ones; the right answers come from fresh processes and are themselves compared with the specification of Scan.')
MAIN['P13'] = concprop.main
NOTES['P13'] = ('TLA+ specification of concurrent calls and once-only initialization, TLC (safety, liveness); overlaps generated from the spec replayed in the real code, also under the race detector, and validated',
                'All orders of calls and returns of 3 goroutines come from the spec; within calls the Go scheduler decides, so a bad interleaving that needs a particular preemption and is no data race can be missed.')
MAIN['P15'] = catalogprop.main
NOTES['P15'] = ('TLA+ specification of the catalog (template expansion, order, types, URLs), model-checked with TLC; recorded catalogs of the real generator and package validated, scans compared',
                'The whole built-in list is compared; the generator is also run on invented directories that use the template actions found in licenses/. URLs of the pinned release must stay listed.')
MAIN['P16'] = builtinprop.main
NOTES['P16'] = ('TLA+ specification of Scan instantiated with all built-in patterns, TLC: sentences generated from the specified syntax trees, scanned by the real code, results validated',
                'Sentences of every built-in license each run, but only some of the combinations of their choices; noisy texts are sampled.')
MAIN['P17'] = oldprop.main
NOTES['P17'] = ('TLA+ specification of package old (words, runs, winnowing, URLs, percentages), model-checked with TLC; recorded calls of Cover validated',
                'The specification is checked exhaustively on small instances; the real code on seeded license lists, options and texts. The built-in list of the package is missing from this tree.')
NA = {}
