"""Property id -> (check function, what it decides)."""
from .rules import effects, facets, native, options, purity, robust

CHECKS = {
    'C01': (effects.c01, 'Every store reachable from a public function is an obligation not to hit memory that may belong to an argument.'),
    'C02': (effects.c02, 'No store reachable from a public function may hit a module, class, function attribute or default-argument object.'),
    'C03': (effects.c03, 'Provenance of every generator that is drawn from.'),
    'C04': (native.c04, 'Import graph of the package and include/link closure of the native targets.'),
    'C05': (native.c05, 'Import effects of module bodies and of every reachable path.'),
    'C06': (effects.c06, 'No print/stdout write is reachable with verbose off.'),
    'C07': (options.c07, 'An opaque unrecognised value reaches no return; every documented value does.'),
    'C09': (native.c09, 'Every native call site against the declarations parsed from the binding sources.'),
    'C10': (facets.c10, 'Symbolic polynomial shapes of every returned array against the documented ones.'),
    'C11': (facets.c11, 'Homogeneity degree of every returned array against the documented unit.'),
    'C12': (facets.c12, 'Translation weight of every returned array against the documented frame behaviour.'),
    'C13': (facets.c13, 'Dependence of every result row on the rows of the batch argument.'),
    'C15': (options.c15, 'Structure of every return path for every combination of return flags.'),
    'C17': (options.c17, 'May-dependence of the results on every parameter.'),
    'C18': (options.c18, 'Literal defaults of signatures against the documentation.'),
    'C19': (facets.c19, 'Element type of every index result.'),
    'C08': (purity.c08, 'No path returns when a native reader or writer reports an error code.'),
    'C14': (purity.c14, 'Value terms of the extrinsic operator and of the intrinsic one on the edge lengths.'),
    'C16': (purity.c16, 'May-dependence of the results on the verbosity flag.'),
    'C20': (purity.c20, 'File-system effects of every reachable path and of the native sources.'),
    'C23': (purity.c23, 'Memory every result may share with arguments and package data.'),
    'C24': (purity.c24, 'Taint of the results by clock, environment, object identity and unwritten memory.'),
    'C21': (robust.c21, 'Expressions that fail on every visit for some documented configuration.'),
    'C22': (robust.c22, 'Element types of all stores when the coordinate arguments are integers.'),
}
