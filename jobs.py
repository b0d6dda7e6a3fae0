"""The jobs of every property: which harness is executed symbolically under which parameters.
A job covers every value of the harness's symbolic inputs; its parameters fix shapes and sizes."""
import collections, itertools

CRATES = ['harness', 'harness_tokio', 'harness_server']
THOROUGH = 3400
PROPS = {}

# what every check takes for granted
ASSUME = [
    'rustc compiles /repo to LLVM IR correctly; rsym (executor) and Z3 4.8.12 are right. Guards: rsym --selftest compares its term '
    'simplifier with a plain evaluator, and instances of executed paths are rerun natively and compared',
    'memory allocation never fails; libc calls follow the stand-ins in symrt (getrandom yields arbitrary bytes)',
    'the IR is built with overflow checks and debug assertions on (profile sym, opt-level 1); a counterexample counts only if it also '
    'fails in a native dev or release build',
]


class Job:
    def __init__(self, harness, params=(), heavy=False, timeout=None, crate='harness', jobs=None, max_steps=400_000_000):
        self.harness, self.params, self.heavy, self.crate, self.max_steps = harness, tuple(params), heavy, crate, max_steps
        self.timeout = timeout or (700 if heavy else 400)
        self.jobs = jobs or (8 if heavy else 2)


def prop(id, quick, thorough=(), bounds=(), bounds_thorough=(), outside=(), assume=()):
    PROPS[id] = dict(quick=quick, thorough=thorough, bounds=list(bounds), bounds_thorough=list(bounds_thorough), outside=list(outside), assume=list(assume))


def expand(id, tier):
    """Entries are (harness, params...) with lists standing for alternatives, `!` marking heavy ones."""
    p = PROPS[id]
    out, seen = [], set()
    for e in list(p['quick']) + (list(p['thorough']) if tier == 'thorough' else []):
        heavy = e[0].startswith('!')
        h = e[0].lstrip('!')
        crate = 'harness'
        if h.startswith('t:'):
            h, crate = h[2:], 'harness_tokio'
        if h.startswith('s:'):
            h, crate = h[2:], 'harness_server'
        for ps in itertools.product(*[x if isinstance(x, (list, range)) else [x] for x in e[1:]]):
            if (h, ps) not in seen:
                seen.add((h, ps))
                out.append(Job(h, ps, heavy, crate=crate, timeout=3000 if tier == 'thorough' and heavy else None))
    return out


T12 = list(range(12))

prop('C01',
     [('c01_roundtrip', range(6), 0, [0, 1, 2], 2), ('c01_roundtrip', [7, 8], 0, 1, 1), ('c01_roundtrip', 0, 1, 2, 2), ('c01_roundtrip', [0, 3], 2, 1, 3),
      ('c01_roundtrip', 3, 0, 3, 1), ('c01_many', [0, 3], [3, 8, 9, 10, 11, 98, 99, 100], 1), ('c01_many', 1, [150, 200], 0), ('c01_many', 0, [9, 10], 90)],
     [('c01_roundtrip', [0, 3, 7], 1, 3, 2), ('c01_roundtrip', [5, 9, 10], 0, 2, 8), ('c01_roundtrip', 0, 2, 2, 2), ('c01_many', [0, 3], range(0, 240, 7), 1)],
     bounds=['message types: want, have, nope, core1.set, example65535.member, every scoped type of 5, 7 and 8 bytes',
             'argument bytes arbitrary; lengths from {0,1,2,3,9,10,11,98..101,500,990,999..1002}, every combination for up to 3 arguments; 3 to 200 arguments of fixed length',
             'up to 3 arbitrary bytes behind the message (8 in thorough)'],
     outside=['other argument lengths, other counts than those listed'])
prop('C02',
     [('c02_sizes', 0, 0, [0, 1, 9, 10, 30]), ('c02_sizes', 0, 1, [98, 99, 100, 101, 980, 990, 995, 997, 998, 999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1023, 1024, 1025, 2000]),
      ('!c02_sizes', 1, 0, 0), ('c02_sizes', 1, 1, 0), ('c02_sizes', 2, 0, 0), ('c02_sizes', 3, 0, [0, 1, 9, 10]), ('c02_sizes', 3, 1, [99, 100, 253, 254, 255, 256, 300]), ('c02_count', [0, 1, 2, 9])],
     [('c02_sizes', 0, 0, [99, 100, 101, 1000, 1010])],
     bounds=['one byte string of the listed lengths; every u64 with every i32; bool, absent, module version (every u16) and byte argument; up to 300 empty arguments',
             'buffers of every size up to the message size plus 2, or sizes around the message size and 1024; contents arbitrary up to a pattern',
             'up to 9 arguments announced, up to two more or any number fewer added'],
     outside=['other length combinations'])
prop('C03',
     [('c03_parse', range(0, 12)), ('!c03_parse', [12, 13]), ('c03_near', [0, 2, 4, 5, 7], 1, [0, 1]), ('c03_near', [1, 3], 1, 1), ('c03_near', 6, 1, 1), ('c03_near', range(8, 18), 1, 1), ('c03_long', [255, 256, 1100, 65530, 65535, 65536, 70000], 1), ('c03_items', [99, 127, 254, 255, 256, 257, 1000], [0, 1]), ('c03_items', [65534, 65535, 65536, 70000], 0), ('!c03_near', [0, 1, 2, 3], 2, 0)],
     [('!c03_parse', [14, 15]), ('!c03_near', [4, 5, 7], 2, 1), ('!c03_near', 6, 2, 0), ('!c03_near', range(8, 18), 2, 0)],
     bounds=['every byte string of up to 13 bytes (15 in thorough)', 'eight well-formed messages of up to 240 bytes with any one byte (four of them, in thorough all, with any two bytes) replaced by anything', 'ten messages with sizes and counts at the limits of 8 to 64 bits with any one byte (thorough: two) replaced', 'messages with an argument of up to 70000 bytes, messages of up to 70000 arguments'],
     outside=['longer inputs that are not near one of the templates'],
     assume=['the reference parser in harness/src/util.rs states the documented format'])
prop('C04',
     [('c04_stable', range(0, 14)), ('!c04_stable', 14), ('c04_near', [0, 1, 2, 3, 4, 5, 7], 1, 1), ('c04_near', 2, 2, 1), ('c04_near', range(8, 18), 1, 1), ('c04_prefix', [0, 1, 2, 3, 4, 5, 7]), ('c04_long', [255, 256, 1100, 65535, 70000]), ('c04_items', [99, 127, 254, 255, 256, 257, 1000], [0, 1]), ('c04_items', [65534, 65535, 65536, 70000], 0)],
     [('!c04_stable', [15, 16]), ('!c04_near', 6, 1, 0), ('!c04_near', [0, 1, 3], 2, 1)],
     bounds=['every byte string of up to 14 bytes (16 in thorough), judged after every byte', 'well-formed messages with one or two arbitrary bytes plus one appended byte',
             'every proper prefix of every message with two arguments of the listed lengths, prefixes of messages with an argument of up to 70000 bytes or with up to 70000 arguments', 'sizes and counts at the limits of 8 to 64 bits with any one byte replaced'],
     outside=['longer inputs that are not near one of the templates'])
prop('C05',
     [('c05_encode', range(10)), ('!c05_encode', [10, 11]), ('c05_decode', [0, 1], range(6)), ('c05_decode', [2, 3], range(7)), ('c05_decode', [4, 5, 6, 7, 8, 9, 10, 11], range(6)),
      ('c05_limits', T12, 2, 0), ('c05_limits', [4, 5, 6, 7, 8, 9], 1, 1), ('c05_near', [0, 1, 2, 3], 2), ('!c05_near', [4, 5], 2), ('c05_near', [6, 7, 8, 9], 1),
      ('c05_digits', [4, 5], range(1, 10)), ('c05_bool', range(4)),
      ('c05_long', range(10), [20, 30, 39, 100, 300]), ('c05_long', [10, 11], [20, 39, 40]), ('c05_long', [0, 2, 4, 6], [1000])],
     [('!c05_digits', [4, 5], [10, 11]), ('!c05_near', [10, 11], 1), ('!c05_decode', [4, 5, 6, 7], 6)],
     bounds=['encoding: every value of the twelve types', 'decoding: every byte string of up to 5 bytes (6 for 16 bits), every digit string of up to 9 digits (32 bits), '
             'strings near the limits of every type (arbitrary tails, one or two arbitrary bytes in the limit itself)',
             'strings of 20 to 1000 ones (128 bits: 40), possibly behind a sign, one of the digits at the ends or in the middle arbitrary'],
     outside=['other byte strings of more than 5 bytes offered to the types of 32 bits and more'])
prop('C06',
     [('c06_bytes', range(0, 9)), ('c06_str', range(0, 7)), ('c06_ident', range(6), range(0, 7)), ('c06_version', 0),
      ('c06_long', range(8), [9, 30, 33, 65, 129, 300, 1030])],
     [('!c06_str', [7, 8]), ('!c06_ident', range(6), [7, 8])],
     bounds=['every byte string of up to 8 bytes as bytes or path, every byte string of up to 6 bytes (8 in thorough) as text or identifier, every module version of a fixed name', 'values of 9 to 1030 bytes with one byte at the ends or in the middle arbitrary'],
     outside=['other longer values'])
prop('C07',
     [('c07_any', range(6), range(0, 7)), ('!c07_any', [0, 1, 2, 3, 4], 7), ('c07_near', range(6), range(8), 1), ('c07_digits', 1, [5, 6], 0), ('c07_digits', 2, 5, [1, 2, 3]), ('c07_digits', 3, 5, 5), ('c07_long', range(6), [20, 33, 65, 129, 300, 1030]),
      ('c07_same', [0, 5], [1, 2, 3], [1, 2, 3]), ('c07_same', 1, [2, 3, 4], [2, 3, 4]), ('c07_same', 2, [4, 5], [4, 5]), ('c07_same', [3, 4], [4, 5], [4, 5]), ('!c07_same', [0, 1, 2, 3, 4], 6, 6)],
     [('!c07_any', range(6), [7, 8]), ('!c07_near', range(6), range(8), 2)],
     bounds=['every byte string of up to 7 bytes (8 in thorough) that is UTF-8', 'spellings near the limits (65535/65536, leading zeroes, non-ASCII) with one or two arbitrary bytes', 'names of 20 to 1030 characters with one byte at the ends or in the middle arbitrary', 'equality, order and printing: every pair of valid ones of up to 6 characters'],
     outside=['longer strings that are not near a template'],
     assume=['the reference grammar in harness/src/util.rs states the documented one'])
prop('C08',
     [('c08_parse', range(0, 8)), ('c08_select', range(1, 5), range(1, 5)), ('c08_chain', range(1, 4), range(1, 4), range(1, 4)),
      ('c08_long', [9, 33, 64, 129, 255, 256, 1030], [0, 1, 9, 64, 255])],
     [('c08_parse', range(8, 12)), ('c08_select', range(1, 9), range(1, 9)), ('c08_chain', range(1, 6), range(1, 6), range(1, 6))],
     bounds=['every string of up to 7 bytes; every pair of IDs of up to 4 and every triple of up to 3 characters (thorough: 11, 8 and 5)', 'pairs of IDs of 9 to 1030 characters, the second one longer by up to 255, each with one byte at the ends or in the middle (of its end) arbitrary'],
     outside=['other longer IDs'])
prop('C09',
     [('c09_valid', 0, 1), ('c09_valid', 1, [2, 12]), ('c09_valid', 2, [1, 12]), ('!c09_valid', 3, [3, 9]), ('c09_size', range(4)), ('c09_tree', [0, 1, 2], [0, 1, 2], 12), ('!c09_tree', 3, range(4), 5), ('!c09_tree', range(3), 3, 5),
      ('c09_wide', [1, 2], [1, 2], [760, 2400, 6060], 130), ('c09_wide', [1, 2], [1, 2], 15500, 62), ('c09_wide', [0, 1, 2], 3, 760, 62), ('c09_wide', 3, [0, 1, 2], 760, 62), ('c09_wide', 0, 3, 2400, 10), ('c09_wide', [1, 2], 3, 2438, 4), ('c09_wide', 3, 2, 2438, 4),
      ('c09_far', [1, 2], [1, 2], 0, [760, 2400, 6060], 130), ('c09_far', [1, 2], [1, 2], 0, 65530, 10), ('c09_far', [1, 2], [1, 2], [250, 760], 2400, 62), ('c09_far', 3, [1, 2, 3], 0, [760, 2400], 62), ('c09_far', [1, 2], 3, 0, [760, 2400], 62),
      ('c09_base', range(4), [5, 33, 64, 129, 256, 1030])],
     [('c09_wide', [1, 2], [1, 2], 65530, 130), ('!c09_wide', [0, 1, 2], 3, 2400, 62), ('!c09_wide', 3, range(4), 2400, 62), ('!c09_valid', 3, 22), ('!c09_tree', 3, range(4), 9), ('!c09_tree', range(3), 3, 12)],
     bounds=['a short and a long suffix: every pair of indexes from two windows of 10 to 130 indexes, the first one from 0, 250 or 760 on, the second from 760, 2400, 6060 or 65530 on', 'every suffix kind: validity for suffixes of up to 12 characters (indexes up to about 730; children of jobs: 9, thorough 22), the announced size for every 32-bit index; every pair of derivations with suffixes of up to 12 characters (pairs with children of jobs: 5, thorough 9 or 12)', 'every pair of indexes out of windows of 62 to 130 indexes from 760, 2400, 6060, 15500 (thorough: 65530) on (suffixes of 13 to 256, thorough 1100, characters; with children of jobs windows at 760 and some at 2400)', 'base: every ID of 2 characters, or a fixed one; validity also for bases of 5 to 1030 characters, one of them arbitrary, and indexes below 300 (2 for the second index of children of jobs)'],
     outside=['other base IDs; other indexes (the length of an ID grows with its index)'])
prop('C10',
     [('c10_roundtrip', range(11), 2), ('c10_strict', range(11), [0, 1, 2], [1, 2], 99), ('c10_strict', range(11), 3, 1, 99), ('c10_type', range(11), 2), ('c10_strict', range(11), range(256, 262), 1, 99), ('c10_strict', range(11), [65537, 65538, 65539, 65540], 0, 99), ('c10_long', range(11), [20, 64, 129, 200, 255, 300, 480, 900, 1000])],
     [('!c10_strict', range(11), [3, 4], 2, 99), ('c10_strict', range(11), [5, 6], 1, 99)],
     bounds=['the eleven typed messages; text and byte fields of up to 2 bytes, every client ID / version / number; decoding of every argument list of up to 3 (thorough 6) arguments of up to 2 bytes, lists of 256 to 261 and 65537 to 65540 arguments',
             'message types near the right one (two arbitrary bytes)', 'fields of 20 to 1000 bytes, one byte of one of them arbitrary (at the ends or in the middle)'],
     outside=['other longer fields'])
prop('C23',
     [('c23_print', [0, 1, 2, 3, 4], [0, 1, 2, 3], 9), ('c23_print', 0, [1, 2], [0, 1, 2]), ('c23_print', 5, 1, 9), ('c23_print', 0, 9, 9), ('c23_long', [10, 20, 65, 100, 300, 1000, 3000]), ('c23_items', [10, 33, 100, 257, 1000], [0, 1])],
     [('!c23_print', [0, 3], [4, 5], 9), ('!c23_print', 0, 3, 3)],
     bounds=['every argument of up to 3 bytes (5 in thorough), pairs of up to 2 bytes (3 in thorough)', 'message types and arguments of 10 to 3000 bytes with one byte at the ends or in the middle arbitrary', 'up to 1000 arguments of up to one byte, three of them arbitrary'],
     outside=['other longer arguments'])
prop('C11',
     [('c11_near', range(3), 1, [0, 1]), ('!c11_near', range(3), 2, 0), ('c11_near', 0, 1, 2), ('c11_any', range(0, 11)), ('c11_hello', range(3), [0, 1, 2], [1, 2, 3], [0, 1]),
      ('c11_hello', range(3), 1, 5, 0), ('c11_other', range(14), 0), ('c11_other', 14, [4, 5, 6, 7]),
      ('c11_long', range(3), [9, 33, 64, 100, 255, 256, 990, 1000, 1024, 2000], [0, 1])],
     [('!c11_near', range(3), 2, [1, 2]), ('!c11_any', [11, 12, 13]), ('c11_other', 14, [8, 9, 10])],
     bounds=['a fresh connection offered: every byte string of up to 10 bytes (13 in thorough); each of the three hellos with any one or two bytes replaced, alone or with a message or two arbitrary bytes behind it; '
             'each hello with 0 to 2 arguments of up to 3 arbitrary bytes (one of up to 5); every other message type of the library, every scoped type of up to 7 (10) bytes, each followed by a valid hello or not', 'hellos with secrets of 9 to 2000 bytes, one of them arbitrary (at the ends or in the middle)'],
     outside=['other secrets of more than 5 bytes', 'handlers other than those of the library with a logging handler around them'],
     assume=['an application whose authorize_* functions know one secret, and a dispatch that records (harness/src/world.rs)'])
prop('C12',
     [('c12_client', [1, 2, 3], [9, 1], [9, 1], [9, 1]), ('c12_client', 5, 2, 3, 1), ('c12_client', 12, 10, 9, 11), ('c12_client', 100, 99, 98, 9), ('c12_screen', [1, 2], [0, 1, 2, 3, 12])],
     [('c12_client', range(1, 9), [9, 0, 1, 3], [9, 0, 2, 3], [9, 0, 1, 4])],
     bounds=['every client ID of 1, 2 and 3 characters with screen IDs of arbitrary text, each absent or of 1 byte; client IDs of 5, 12 and 100 characters (lowercase behind the 4th) with screen IDs of up to 99 characters (ASCII behind the 3rd)'],
     outside=['other length combinations'],
     assume=['mock application and dispatch as for C11'])
prop('C13',
     [('c13_split', range(8), 0, [0, 1]), ('c13_split', [0, 4], 0, 2), ('c13_split', [0, 1, 2, 5], 1, 1), ('!c13_split', [3, 7], 1, 1), ('c13_split', range(8), 1, 0), ('c13_any', 0, range(1, 9), [0, 1]), ('c13_any', 1, range(1, 7), [0, 1]), ('c13_any', 1, 4, 2),
      ('c13_long', [900, 1000, 1024, 1100, 2100, 3000, 5000], [0, 1, 2, 100, 1024]), ('c13_many', [30, 70, 150, 300], [1, 7, 100, 1024])],
     [('!c13_split', [1, 2, 3, 5, 6, 7], 0, 2), ('!c13_split', [0, 1, 2, 3], 1, 2), ('!c13_any', [0, 1], [7, 8], 2)],
     bounds=['eight streams (hellos, messages, garbage, stdout data, refused hellos) with up to one arbitrary byte anywhere, cut after every byte or at any one place, or at any two places',
             'every stream of up to 8 bytes on a fresh connection and of up to 6 bytes behind a client hello, cut likewise', 'messages of 900 to 5000 bytes with another one behind, cut at places inside, before and behind and at regular distances', 'up to 300 small messages and pieces of garbage, cut at regular distances'],
     outside=['longer arbitrary streams; the cuts of the Tokio receiver are the subject of C21'],
     assume=['mock application and dispatch as for C11', 'reports of parse errors are not compared, discarded and delivered bytes are compared as streams'])
prop('C14',
     [('c14_script', [0, 1, 2], [0, 1, 2], [0, 1], [0, 2]), ('c14_script', 3, 3, 3, 1), ('c14_any', range(1, 12)), ('c14_near', range(4), range(4), 1), ('c14_near', [0, 2], [0, 2], 2), ('c14_long', [5, 20, 64, 100, 257, 600, 1000, 1025, 2050])],
     [('!c14_any', [12, 13]), ('!c14_near', range(4), range(4), 2)],
     bounds=['every byte string of up to 11 bytes (13 in thorough); pairs of four messages with one (two) bytes replaced; scripts of three messages with up to 3 arbitrary garbage bytes and six false openers between them', 'garbage and arguments of 5 to 2050 bytes, one of them arbitrary (at the ends or in the middle), with and without an opener inside'],
     outside=['other longer garbage'],
     assume=['mock application and dispatch as for C11', 'what is a message is taken from the parser, which C03 checks'])
prop('C15',
     [('c15_type', range(14), 0, [0, 1, 2], 1), ('c15_type', range(14), 1, 1, 1), ('c15_type', 14, range(4, 9), 1, 1), ('c15_args', 0, 1, range(0, 8)), ('c15_args', 0, [0, 2, 3], 2),
      ('c15_args', range(1, 14), [0, 1, 2, 3, 4, 5], 1), ('c15_args', [3, 4], [1, 4], [2, 3]), ('c15_seq', [1, 2]),
      ('c15_long', range(6), [9, 33, 64, 100, 257, 480, 990]), ('c15_long', 6, [9, 33, 64, 100, 257, 480])],
     [('!c15_args', 0, 1, [8, 9]), ('!c15_seq', 3), ('!c15_type', range(14), 2, 1, 1), ('c15_type', 14, [9, 10, 11, 12], 1, 1)],
     bounds=['each of 14 message types, also with any one byte (two in thorough) replaced, and every scoped type of up to 8 (12) bytes, with up to 5 arbitrary arguments; every want argument of up to 7 (9) bytes; every sequence of up to 2 (3) messages', 'module names, message types and arguments of 9 to 990 bytes, one of them arbitrary (at the ends or in the middle)'],
     outside=['other longer arguments', 'valid client-make and client-end messages (C16, C17)'],
     assume=['an own handler for module own1 behind the library handlers; mock application and dispatch as for C11'])
prop('C16',
     [('c16_make', [1, 2], range(0, 5), [1, 2, 3], [0, 1]), ('c16_make', 1, 3, 4, [0, 2]), ('c16_make', 3, [3, 4, 5], 5, 1), ('c16_long', [5, 64, 129, 256], [1, 5, 40], [5, 40])],
     [('c16_make', [1, 2, 3, 4], range(0, 8), range(1, 8), [0, 1, 2])],
     bounds=['every requester ID of up to 3 characters, every requested ID of up to 5 bytes, every registered ID of up to 5 characters, screen IDs of up to 2 arbitrary bytes (thorough: 4, 7, 7, 2)', 'requesters of 5 to 256 characters and requested and registered IDs longer by up to 41, each with one arbitrary byte'],
     outside=['other longer IDs', 'applications that answer has_clients or register_client inconsistently'],
     assume=['mock application and dispatch as for C11'])
prop('C17',
     [('c17_end', [1, 2], range(0, 5), range(1, 5)), ('c17_end', 3, [3, 4, 5], [4, 5]), ('c17_long', [5, 64, 129, 256], [1, 5, 40])],
     [('c17_end', [1, 2, 3, 4], range(0, 7), range(1, 8))],
     bounds=['every requester ID, ended ID and other client ID of up to 3, 5 and 5 bytes (thorough 4, 6, 7), with connections in every state, a registration without connection and an unredeemed credential', 'requesters of 5 to 256 characters and other IDs longer by up to 41, each with one arbitrary byte'],
     outside=['other longer IDs, more clients'],
     assume=['an application that releases what unregister_clients selects; mock dispatch as for C11'])
prop('C18',
     [('c18_stdout', [0, 1, 3], [0, 1, 3], [0, 2]), ('c18_stdout', 16, 16, 16), ('c18_stdout', 300, 2000, 60), ('c18_stdout', [0, 1024], [1023, 4096], [1024, 5000]), ('c18_stdin', [0, 1, 2, 8], [0, 1, 2, 8]), ('c18_stdin', [0, 300], [1024, 5000]), ('c18_closed', [*range(0, 9), 12, 40, 300, 1024, 1025])],
     [('c18_stdout', 5000, 70000, 3000)],
     bounds=['up to 10120 arbitrary bytes in up to three reads on a stdout connection (thorough: 78000), up to 5300 on a stdin connection, up to 1025 on a closed one'],
     outside=['larger reads'],
     assume=['mock application and dispatch as for C11'])
prop('C22',
     [('c22_secret', [0, 1]), ('c22_client', [0, 1, 20]), ('!c22_screen', [0, 1, 10])],
     bounds=['every outcome of the random source, for one and two consecutively issued credentials, the first ones or after up to 20 others'],
     outside=['the quality of the random source itself (getrandom)'],
     assume=['secrets come from getrandom(2)'])
prop('C24',
     [('c24_none',), ('c24_near', 2, 0, 0, range(4)), ('c24_near', 2, 1, 1, [0, 3]), ('!c24_near', 2, 1, 0, 1), ('c24_any', range(0, 10), [0, 3]), ('c24_any', [5, 6], [1, 2]), ('c24_prefix', [0, 2], [0, 1, 3]), ('c24_prefix', 12, 1), ('c24_args', range(0, 4), [0, 1, 2], [0, 1, 2], 0),
      ('c24_args', [1, 2], 1, 7, 0), ('c24_args', 2, 3, 0, [0, 1]), ('c24_limit', [99, 1000, 1020, 1022, 1023, 1024, 1025, 1026, 1100], [0, 5], [0, 1, 2, 3])],
     [('!c24_near', 1, 2, 0, [0, 3]), ('!c24_near', 1, 1, 1, 2), ('!c24_any', [10, 11, 12], [0, 3]), ('!c24_prefix', 2, 2), ('c24_args', 2, [4, 5], 0, 0)],
     bounds=['what arrives on the descriptor: parent hellos with any one byte (thorough: two) replaced, every proper prefix of hellos, every byte string of up to 9 (12) bytes, up to 3 arguments of up to 3 arbitrary bytes under the right and other types, hellos of 100 to 1100 bytes; up to 5 arbitrary bytes behind',
             'read in one piece, byte by byte, or cut at any one (thorough: two) places; then end of stream, any error number except EINTR, or nothing more (the code must not wait)'],
     outside=['interrupted reads (EINTR)', 'other data'],
     assume=['read(2), close(2) and fcntl(2) on descriptor 60 answered by harness/src/env.rs (natively as well)'])
MODEL = [
    "Tokio's sockets and runtime are replaced by a model (tokio_model: cooperative tasks; the harness decides which ready task runs next); "
    'tokio::sync and tokio::io are the real ones (tokio_real, the sources of Tokio 1.54.1). Natively the same model is linked',
    'threads: locks of the dispatch are replaced by locks that know about the interleavings (hook vt6_model_locks, tokio_model model_sync)',
    'mock application as for C11 (harness/src/world.rs)']
THREADS = ['interleavings of threads other than these: wherever a task is about to take a lock of the dispatch or has released one, any other ready task runs until it waits, '
           'as often as stated, up to three deep (in the other jobs tasks run one at a time, from wait to wait)', 'weak memory effects', 'the real runtime of Tokio and the kernel']
prop('C19',
     [('t:c19_messages', 6, 100, 24, [40, 60, 4000], 0), ('t:c19_messages', 5, 1019, 1017, [1000, 4072, 5000], 3), ('t:c19_messages', 4, 1024, 16, [4072, 5000], [4, 7, 12]), ('t:c19_messages', 4, 1017, 1019, 2000, [2, 8]), ('t:c19_messages', 2, [1017, 40], 1019, [5000, 100000], [100, 300]),
      ('t:c19_stdin', 6, 100, 5000, 3000), ('t:c19_stdin', 5, [4071, 4072, 4073], 1, 4000), ('t:c19_stdin', 4, 20000, 0, [4072, 9000]), ('t:c19_stdin', 5, 1, 8144, 4072), ('t:c19_replies', 9, 700), ('t:c19_replies', 9, [1, 5000]), ('t:c19_replies', 6, 0),
      ('t:c19_threads', 24, 1017, 40, 0, [7, 5000], 2, 2), ('t:c19_threads', 5, 4072, 100, 1, [1000, 5000], 2, 2), ('t:c19_wrong', range(5))],
     [('!t:c19_messages', 8, 100, 24, 60, 0), ('!t:c19_messages', 7, 1019, 1017, 4072, 3), ('!t:c19_stdin', 8, 100, 5000, 3000), ('!t:c19_stdin', 7, 4072, 1, 4000), ('!t:c19_replies', 12, 700), ('t:c19_threads', 24, 1017, 1019, 0, [1000, 5000], 3, 2), ('t:c19_threads', 5, 4072, 1, 1, [1000, 5000], 3, 2)],
     bounds=['every sequence of up to 6 (thorough 8) events out of: queue item A, queue item B, the client takes some bytes, one ready task runs; up to 12 messages queued before (up to 300 with fewer events)',
             'messages of 16 to 1024 bytes (the send buffer of 4072 bytes is hit exactly), stdin data of 0 to 20000 bytes; the outer and middle bytes of every item arbitrary',
             'replies to up to 9 (12) messages sent by a client that reads late',
             'a message or stdin data queued for a connection in each of the five modes',
             'two threads that queue messages or stdin data while a third one transmits, with up to 2 (3) preemptions'],
     outside=THREADS + ['longer histories'], assume=MODEL)
prop('C20',
     [('t:c20_broadcasts', [1, 2, 3]), ('t:c20_teardown', range(5), range(5), [0, 3]), ('t:c20_teardown', [0, 2, 4], [1, 3], 5), ('t:c20_leave', range(3), range(5)), ('t:c20_end', 1, [2, 3], [1, 2, 3]), ('t:c20_end', 2, [3, 4], [1, 2, 3]),
      ('t:c20_threads', range(6), range(8), 2, [1, 2]), ('t:c20_threads', [6, 7], range(6), 2, 1), ('t:c20_threads', [0, 3, 5], [0, 1, 3, 5], 3, 1), ('t:c20_arrival', 3, 4), ('t:c20_many', 10, 10), ('t:c20_many', 70, 3), ('t:c20_many', 260, 2)],
     [('!t:c20_broadcasts', 4), ('t:c20_teardown', range(5), range(5), [5, 7]), ('t:c20_end', 1, [2, 3, 4], range(1, 6)), ('t:c20_end', 3, [4, 5], range(1, 6)), ('t:c20_threads', range(6), range(8), 3, [1, 2]), ('t:c20_arrival', 4, 4)],
     bounds=['every sequence of up to 3 (thorough 4) events out of: a broadcast, a broadcast that queues broadcasts, broadcasts from a message, the five ways a connection ends, a new connection; starting with 2 connections; up to 260 connections and up to 10 broadcasts, then one of them ends and another one comes',
             'every pair of ends of one connection with up to 5 (7) task steps between, with and without output under way',
             'every pair of broadcasts, chains of broadcasts, broadcasts from a message or from the notice that a connection has ended, ends of connections and new connections, on several threads, with up to 2 (some 3, thorough all) preemptions; a message sent while its connection is being set up, with up to 3 (4) preemptions'],
     outside=THREADS + ['longer histories'], assume=MODEL)
prop('C21',
     [('t:c21_rx', range(8), 0, 1, [0, 3], [0, 1, 2]), ('t:c21_rx', range(8), 0, [0, 1], 1, [0, 1, 2]), ('t:c21_rx', range(8), 1, 3, 0, [0, 1]), ('t:c21_rx', [0, 5], 1, 1, 0, 0),
      ('t:c21_any', 0, [4, 8], [0, 1], [0, 1, 2]), ('t:c21_any', [1, 2, 3], [2, 4], 1, [0, 1, 2]), ('t:c21_any', 1, 6, 0, [0, 1]),
      ('t:c21_long', [0, 1, 3], [1500, 5000], [1000, 1024, 1025, 3000], [0, 1, 2]), ('t:c21_long', 2, 1300, [1000, 1024, 1025], [0, 1, 2]),
      ('t:c21_threads', range(8), 0, range(4), [1, 2], 2), ('t:c21_threads', [1, 2, 5], 1, range(4), 1, 0), ('t:c21_threads', [0, 3], 1, 1, 1, 0)],
     [('!t:c21_rx', range(8), 1, 1, 0, [0, 1]), ('!t:c21_rx', range(8), 0, 2, 1, [0, 1]), ('!t:c21_any', [0, 1], [8, 9], 1, 1), ('t:c21_long', [0, 1, 3], [1024, 20000], [7, 1024, 4096], [0, 1, 2]), ('t:c21_threads', range(8), 0, range(4), 3, 2), ('!t:c21_threads', range(8), 1, range(4), 1, 0)],
     bounds=['eight streams (hellos, messages, garbage, stdout data) whole and with any one byte replaced, arriving in up to two portions and read in pieces cut anywhere, byte-wise or at random regular distances; every stream of up to 8 bytes on a fresh connection, of up to 6 behind a hello; streams of up to 5000 (20000) bytes; then open, end of stream or read error',
             'each of the eight streams while another thread queues a broadcast or a message, closes the connection, or a new connection arrives, with up to 2 (3) preemptions'],
     outside=THREADS + ['longer arbitrary streams'],
     assume=MODEL + ['the oracle is the same connection code fed with everything at once (C13 to C15, C18 check that)', 'where a connection closes, how much of the rest had been read may depend on the cuts'])
prop('C25',
     [('c25_many', range(4), [30, 1000]), ('t:c25_reply', [0, 1], [900, 1001, 1008, 1009, 1010, 1011, 1012, 1020, 1100, 3000]), ('t:c25_reply', 2, [400, 480, 490, 495, 496, 497, 500, 600]),
      ('c11_any', [6, 9]), ('c14_any', [7, 10]), ('c14_near', range(4), range(4), 1), ('t:c21_any', [0, 1], [5, 7], 0, 1), ('t:c21_long', [0, 1, 3], [1500, 9000], 1000, 1), ('t:c21_long', 2, 2000, 1000, 1), ('c15_args', range(1, 14), [1, 4], 2)],
     [('c25_many', range(4), 5000), ('!c14_any', 13), ('!t:c21_any', [0, 1], 9, 0, 1), ('!c14_near', range(4), range(4), 2)],
     bounds=['runs of up to 1000 (5000) messages, garbage bytes, openers or stdout bytes in one read, with stack use bounded; replies of 900 to 3000 bytes, around the limit of 1024; every byte string of up to 10 bytes; messages with one (two) arbitrary bytes'],
     outside=THREADS + ['memory use (an incomplete message is buffered without limit)', 'handlers that close the connection and fail at the same time'],
     assume=MODEL)
prop('C26',
     [('t:c26_shutdown', [0, 1, 2, 3], [0, 2, 4]), ('t:c26_shutdown', [1, 2], 6), ('t:c26_error',), ('t:c26_early', [0, 1, 2], 2, 2), ('t:c26_early', 1, 3, 3),
      ('t:c26_threads', range(7), 2, 2), ('t:c26_threads', [0, 2, 3, 5, 6], 3, 2)],
     [('!t:c26_shutdown', 3, [6, 8]), ('t:c26_threads', range(7), 3, 3)],
     bounds=['up to 4 connections, on any of them output under way and an incomplete message, up to 6 (8) task steps before the shutdown',
             'a shutdown requested before the event loop runs or while it starts',
             'a shutdown requested by another thread while connections arrive, broadcasts, messages and replies are queued or a connection ends, with up to 2 (3) preemptions'],
     outside=THREADS, assume=MODEL)
prop('C27',
     [('c27_path', range(0, 5), [0, 1, 2, 3, 4, 6, 7, 8]), ('c27_path', range(0, 4), 5)],
     [('c27_path', 4, 5), ('c27_path', 5, [0, 1, 2, 4, 6, 7])],
     bounds=['every value of XDG_RUNTIME_DIR of up to 4 (5 in thorough) bytes, and none; six process IDs of 1 to 7 digits',
             'the runtime directory is there, is a file, is missing or cannot be looked at; the directory vt6 in it is there, is a file, is made, is made by somebody else at the same time, or cannot be made; every error number except ENOENT, EINTR, EEXIST, ENOSYS where something fails'],
     outside=['longer names', 'file system changes between two looks other than the one listed'],
     assume=['getenv(3), statx(2), mkdir(2), getpid(2) answered by harness/src/place.rs (natively as well)'])
SERVER = MODEL[:2] + ['the main function of the example server runs as it is, with belog replaced by a logger that keeps what is logged, tokio::time and tokio::signal by models, '
                      'and environment and files as in harness_server/src/world.rs (natively as well); secrets come from a random source that never repeats itself']
prop('C28',
     [('s:c28_first', [0, 1, 2], range(7)), ('s:c28_any', [0, 1, 2], range(0, 5)), ('s:c28_seq', [1, 2, 3]), ('s:c28_tree', [2, 3, 4], [0, 1, 2]), ('s:c28_ids', [0, 1], [1, 2], 1), ('s:c28_race', range(4), 2, 2)],
     [('s:c28_any', [0, 1, 2], [5, 6]), ('s:c28_seq', 4), ('s:c28_tree', 5, [0, 1, 2]), ('s:c28_ids', [1, 2], [1, 2], [1, 2]), ('s:c28_race', range(4), 3, 3)],
     bounds=['hellos of every role with the announced secret with any one byte replaced, shortened, with one byte before or behind it, with the secret of another role, with every byte string of up to 4 (6) bytes; every sequence of up to 3 (4) hellos with announced secrets, with the connections kept or closed',
             'every sequence of up to 4 (5) events out of client-make, client-end, hello with an issued secret, disconnection, by any connected client with any of two or three IDs; sequences of five such requests with IDs with up to 1, 2 and 1 (2, 2, 2) arbitrary characters',
             'two clients that ask for the same ID or redeem the same secret, or redeem or ask for what is being ended, on several threads, with up to 2 (3) preemptions'],
     outside=THREADS + ['longer histories'], assume=SERVER)
prop('C29',
     [('s:c29_ticks', [2, 3, 4]), ('s:c29_stdout', [0, 3, 1024], [1, 2000], [3, 40]), ('s:c29_interrupt', [0, 1, 2, 3], [0, 2]), ('s:c29_interrupt', [1, 2], 4)],
     [('s:c29_ticks', 5), ('s:c29_interrupt', 4, [0, 2]), ('s:c29_interrupt', 3, 4)],
     bounds=['every sequence of up to 4 (5) events out of: a stdin connection comes or goes, a second passes, with a message, a stdout and an anonymous connection open', 'stdout data of 1 to 2000 bytes in three pieces',
             'an interrupt after up to 3 (4) connections of any kind, second after second, and up to 4 task steps in any order'],
     outside=THREADS + ['longer histories'], assume=SERVER)
NOT_CLAIMED = {}
prop('C30',
     [('c30_discard', [0, 1, 2, 3], 0), ('c30_discard', [1, 2, 3, 4, 8, 20], 1), ('c30_discard', [1, 2], [2, 3, 4, 8]), ('c30_discard', 1, [5, 6, 7]), ('c30_pair', [0, 1, 2], [0, 1, 2]),
      ('c30_long', [20, 50, 100]), ('c30_big', [300, 1030, 5000]), ('c30_parse', range(1, 7)), ('c30_offset', 0), ('c30_kinds', 0), ('c30_io', [0, 1, 3, 20]), ('c30_errno', 0), ('c30_hello', [0, 1, 2])],
     [('!c30_pair', 3, [2, 3]), ('c30_long', [200, 300]), ('c30_parse', [7, 8]), ('c30_hello', 3)],
     bounds=['discarded bytes: every string of up to 3 bytes that are ASCII or occur in no UTF-8, and one or two continuation or ASCII bytes behind five beginnings of longer characters; 20 to 100 (thorough: 300) bytes, one of them arbitrary (at the ends or in the middle); 301 to 5001 letters',
             'every pair of ASCII strings of up to 2 (thorough: 3) bytes', 'parse errors of every input of up to 6 (8) bytes, every kind of error at every offset below 16384', 'texts of I/O errors of up to 20 ASCII bytes; hellos with an argument of up to 2 (3) bytes'],
     outside=['other characters outside ASCII', 'other longer texts'])
