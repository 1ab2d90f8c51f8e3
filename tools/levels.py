"""Per property: the level claimed and what it rests on (used by mkmanifest.py, mkdesign.py and check.py).

LEVEL: 'proof' when every clause of the statement is an obligation discharged over the real functions, up to the assumptions
listed in the evidence and to the remainder that the note names (which only the bounded search covers)."""
NOTES = {
    'P01': ('proof', 'resolution: the loop of Footprint.resolve (remap, conversion, class attributes, values, outcasts), the tests of values and the '
            'key order are under contract for every footprint and description; the termination of the chains and the conversions themselves are '
            'assumed (an external type is a deterministic function)'),
    'P02': ('proof', 'the first guess, its key table and the fact that the resolution starts from nothing else are discharged for all footprints, '
            'descriptions and defaults; the lookup in the case insensitive setup is only exercised by the bounded search'),
    'P03': ('proof', 'the gathering of the extra values and the scheduling of the substitutions (which value a reference takes, failures) are discharged; '
            'the splitting of a string in references by the regular expression is assumed and exercised by the bounded search'),
    'P04': ('proof', 'checkonly and footprint_couldbe are discharged for all clauses and descriptions; the matching of regular expressions and the '
            'comparison of foreign values are assumed to be functions of their arguments'),
    'P05': ('proof', 'find_all, find_any, find_best and the rank given to a candidate are discharged for all sets of classes; the classes themselves '
            'are seen through the contracts of footprint_couldbe and of the creation'),
    'P06': ('proof', 'the index kept by add, discard, clear, pop and the fast track setter, and the pre-selection done from it, are discharged for all '
            'sequences of operations (invariant of the collector)'),
    'P07': ('proof', 'pickup_and_cache, pickup, load, the tracking and the clean up of a description are discharged for all descriptions; almost_clone is only '
            'exercised by the bounded search'),
    'P08': ('proof', 'every operation of PriorityLevel and PrioritySet is under contract and all its obligations are discharged for all sets, levels and '
            'arguments, the module functions set_before and set_after of the priorities and of the documentation included; as_dump is only exercised by the bounded search'),
    'P10': ('proof', 'the accessors of the six modes and the low level accessors are under contract, every obligation discharged; so is the installation of '
            'the accessor of the declared mode by the metaclass; the release of weakly referenced values by the garbage collector is only exercised by the bounded search'),
    'P11': ('proof', 'clones, dictionary views, exports, states and object creation are discharged for all objects; the pickle protocol and deepcopy are Python\'s '
            '(assumed), the descriptors are those of P10'),
    'P12': ('proof', 'the tracking operations, default, grep and compatibility are discharged for all sets of instances; the weak references of the observer board '
            'are only exercised by the bounded search'),
    'P13': ('proof', 'filters, discards, additions and removals are discharged for all sets of classes; the metaclass that merges, '
            'registers and refuses the definitions is under contract for one or two base classes (no decorative footprint)'),
    'P14': ('proof', 'the whole expansion loop (expand), the substitution of a value (inplace) and the test of what is still to expand are discharged for all '
            'descriptions: results are exactly the alternatives, in order, with their rank, every choice is there; what the regular expressions tell of a text, '
            'the file system and the reading of the globs (_parse_globs) are assumed functions, exercised by the bounded search'),
    'P16': ('proof', 'hashing, items, exports and regular expressions of the standard types are discharged for all contents; the containers themselves are Python\'s, '
            'and the equality of two values of these types is only exercised by the bounded search'),
    'P17': ('proof', 'the bookkeeping of the log (add, history, whynot) and the dictionary views (log, collector, class) are discharged for all logs; the other views (flat, factorized, '
            'XML) are only exercised by the bounded search'),
    'P18': ('proof', 'the proxies, the setup switches and the registration of collectors in the proxy are discharged; the restoration after an interrupted '
            'use and the environment are only exercised by the bounded search'),
    'P20': ('proof', 'the queries of footprints and classes, the attribute map, the union of the values and the module functions are discharged for all definitions and '
            'collectors; the printed forms and collected_priorities are only exercised by the bounded search'),
}
# contracts that decide a part of the statement only: the level stays 'exploration'
PARTS = {
    'P09': ('bounded search on the real code; in addition, under contract: Footprint.__init__ for one attribute, one definition and own keywords (who wins, defaults, '
            'clamping, sets of their own, definitions left alone), list2dict, the decorators and the metaclass; the conversion of values, remaps and longer sequences '
            'of definitions are only exercised by the search'),
}
EXPL = 'bounded search on the real code only (not proved)'


def level(p):
    return NOTES[p][0] if p in NOTES else 'exploration'


def note(p):
    return NOTES[p][1] if p in NOTES else PARTS.get(p, EXPL)
