"""Source units of /repo, harnesses, and which harnesses decide which property."""
UNITS = {
    'lib': ['lib/*.c', '@parse', 'rt/stamp.c'],
    'fbld': ['fbld/*.c!fbld.c'],
    'fbld_also': [('fbld/*.c!fbld.c', ('-DgInitialized=gFbldInitialized',))],   # next to lib, which has the name too
    'mem_fble': ['lib/alloc.c', 'lib/vector.c'],
    'mem_fbld': ['fbld/alloc.c', 'fbld/vector.c'],
    'bins': [('bin/fble-deps.c', ('-Dmain=DepsMain',)), ('bin/fble-disassemble.c', ('-Dmain=DisassembleMain',)),
             ('bin/fble-compile.c', ('-Dmain=CompileMain', '-DFbleGenerateAArch64=StubA', '-DFbleGenerateC=StubC', '-DFbleGenerateAArch64Export=StubAE', '-DFbleGenerateCExport=StubCE',
                                     '-DFbleGenerateAArch64Main=StubAM', '-DFbleGenerateCMain=StubCM'))],
    'perf': [('bin/fble-perf-profile.c', ('-Dmain=PerfMain',))],
    'core': ['pkgs/core/*.c!fble-stdio.c'],
}


def H(src, units, quick, thorough=None, reach=('end',), bounds='', **kw):
    """quick/thorough: (defs, timeout seconds); no quick: thorough tier only"""
    d = dict(src=src, units=list(units), reach=list(reach), bounds=bounds, **kw)
    if quick:
        d['quick'] = dict(defs=quick[0], timeout=quick[1])
        if len(quick) > 2:
            d['quick']['gen'] = quick[2]
    t = thorough or (quick[0], 3600)
    d['thorough'] = dict(defs=t[0], timeout=t[1])
    if len(t) > 2:
        d['thorough']['gen'] = t[2]
    return d


HARNESSES = {
    'pack_tree': H('v_pack.c', ['lib'], (['MODE=0', 'NODES=5'], 200), (['MODE=0', 'NODES=7'], 3000),
                   bounds='every value tree of at most 5 (thorough 7) struct/union/function/native nodes, arity <=3, tags <=2'),
    'pack_union': H('v_pack.c', ['lib'], (['MODE=1'], 200),
                    bounds='two nested unions with tags 0..69 each, alone or among up to 3 struct fields'),
    'pack_wide': H('v_pack.c', ['lib'], (['MODE=2'], 200),
                   bounds='structs of 0..69 fields, one field with tag 0..11 at first/middle/last position, optionally wrapped'),
    'lists': H('v_list.c', ['lib'], (['NMAX=6'], 200), (['NMAX=12'], 2000),
               bounds='lists and literals of up to 6 (thorough 12) elements, one element of any tag 0..67'),
    'gc_history': H('v_gc.c', ['lib'], (['MODE=0', 'STEPS=6'], 200), (['MODE=0', 'STEPS=7'], 3400),
                    bounds='every history of 6 (thorough 7) heap operations with operands among the newest handles and the oldest'),
    'gc_rounds': H('v_gc.c', ['lib'], (['MODE=1', 'ROUNDS=2', 'DEPTH=1'], 200), (['MODE=1', 'ROUNDS=2', 'DEPTH=2'], 3000),
                   bounds='2 rounds of entering up to DEPTH frames with 0..2 allocations each, linking, returning one of three choices, and 0..2 further allocations'),
    'loop': H('v_loop.c', ['lib'], (['MODE=0'], 200),
              bounds='native loops of arity 1..12 by tail call through a reference: arguments kept or rotated, 0..arity garbage values per iteration, one argument fresh, 18+2*arity iterations'),
    'chunks': H('v_loop.c', ['lib'], (['MODE=1'], 400),
                bounds='loops whose iterations allocate a struct of 65520..65536 or 131051..131074 fields followed by structs of 3..6 fields'),
    'report': H('b_prof.c', ['lib', 'perf'], (['MODE=0', 'BLOCKS=3', 'STEPS=4', 'TIMES=3'], 300), (['MODE=0', 'BLOCKS=3', 'STEPS=6', 'TIMES=3'], 7000),
                bounds='reports of every history of 4 (6) entries and exits over 3 blocks with 3 different times'),
    'perf': H('b_prof.c', ['lib', 'perf'], (['MODE=1', 'LINES=2', 'FRAMES=3'], 400), (['MODE=1', 'LINES=3', 'FRAMES=3'], 7000),
              bounds='2 (3) sample lines of up to 3 frames of 3 functions each, 5 choices of squashed functions, 3 ways to end'),
    'perf_any': H('b_prof.c', ['lib', 'perf'], (['MODE=2', 'MAXLEN=8'], 400), (['MODE=2', 'MAXLEN=11'], 7000), reach=('end', 'converted', 'refused'),
                  bounds='every input of up to 8 (11) bytes'),
    'perf_args': H('b_prof.c', ['lib', 'perf'], (['MODE=3'], 200), reach=('end', 'converted', 'refused'),
                   bounds='every list of up to 2 command line words of 7 kinds'),
    'compiled': H('x_comp.c', ['lib'], ([], 400, ('c', '-DDEPTH=1', '-DLEAVES=2')), ([], 7000, ('c', '-DDEPTH=2', '-DLEAVES=1')), reach=('end', 'abort', 'result'),
                  bounds='every program of nesting depth 1 (2) of h/gen.h, generated as C, against the interpreter for every argument value'),
    'compiled_abort': H('x_comp.c', ['lib'], (['ROUNDS=2'], 400, ('c', '-DDEPTH=0', '-DABORTS=1', '-DLEAVES=0')), (['ROUNDS=2'], 7000, ('c', '-DDEPTH=1', '-DABORTS=1', '-DLEAVES=0')), reach=('end', 'abort', 'result'),
                        bounds='every program of nesting depth 0 (1) of h/gen.h that may abort, generated as C, run twice'),
    'compiled_special': H('x_comp.c', ['lib'], ([], 400, ('c', 'special')), reach=('end', 'abort', 'result'),
                          bounds='the programs of h/x_progs.h, for every argument value', limit=400000000),
    'assembled': H('x_comp.c', ['lib'], ([], 400, ('aarch64', '-DDEPTH=1', '-DLEAVES=2')), ([], 7000, ('aarch64', '-DDEPTH=2', '-DLEAVES=1')), reach=('end', 'abort', 'result'),
                  bounds='every program of nesting depth 1 (2) of h/gen.h, generated as AArch64 assembly, against the interpreter for every argument value'),
    'assembled_abort': H('x_comp.c', ['lib'], (['ROUNDS=2'], 400, ('aarch64', '-DDEPTH=0', '-DABORTS=1', '-DLEAVES=0')), (['ROUNDS=2'], 7000, ('aarch64', '-DDEPTH=1', '-DABORTS=1', '-DLEAVES=0')), reach=('end', 'abort', 'result'),
                        bounds='every program of nesting depth 0 (1) of h/gen.h that may abort, generated as AArch64 assembly, run twice'),
    'assembled_special': H('x_comp.c', ['lib'], ([], 400, ('aarch64', 'special')), reach=('end', 'abort', 'result'),
                          bounds='the programs of h/x_progs.h, for every argument value', limit=400000000),
    'apply': H('v_call.c', ['lib'], (['DEPTH=3', 'ARGS=4', 'CHURN=1', 'PROFILE=1'], 200), (['DEPTH=3', 'ARGS=5', 'CHURN=2', 'PROFILE=1'], 3000),
               reach=('end', 'abort'),
               bounds='chains of up to 4 native functions of 8 behaviours and arity 1..3, direct or through references, applied to up to 4 (5) arguments in every grouping'),
    'eval': H('l_eval.c', ['lib'], (['MODE=0', 'DEPTH=2', 'LEAVES=2'], 600), (['MODE=0', 'DEPTH=3', 'LEAVES=1'], 7000), reach=('end', 'abort'),
              bounds='every program of nesting depth 2 (3) the generator of h/gen.h describes, over all expression forms, with up to 2 choices of leaf, evaluated for every argument value'),
    'types1': H('l_eval.c', ['lib'], (['MODE=1', 'DEPTH=1', 'LEAVES=1'], 200), (['MODE=1', 'DEPTH=2', 'LEAVES=1'], 7000), reach=('end', 'rejected'),
                bounds='every program of nesting depth 1 (2) with one typing mistake at any point of it'),
    'names': H('l_names.c', ['lib'], (['NMAX=3'], 300), (['NMAX=4'], 3400), reach=('end', 'rejected', 'accepted'),
               bounds='every group of up to 3 (4) fields, tags, bindings, parameters, branches or copied fields, with 4 names and 1 type name'),
    'any1': H('l_any.c', ['lib'], (['DEPTH=1', 'LEAVES1=16', 'LEAVES2=0', 'MINHOLES=0', 'MAXHOLES=2'], 300), reach=('end', 'rejected', 'accepted'),
              bounds='every expression form with up to 2 operands, each any of 16 leaves of any type'),
    'any3': H('l_any.c', ['lib'], None, (['DEPTH=1', 'LEAVES1=11', 'LEAVES2=0', 'MINHOLES=3', 'MAXHOLES=3'], 2000), reach=('end', 'rejected', 'accepted'),
              bounds='every expression form with 3 operands, each any of 11 leaves of any type'),
    'any_nest': H('l_any.c', ['lib'], None, (['DEPTH=2', 'LEAVES1=0', 'LEAVES2=2', 'MINHOLES=1', 'MAXHOLES=3'], 3400), reach=('end', 'rejected', 'accepted'),
                  bounds='every expression form applied to every expression form, with 2 leaves'),
    'rec2': H('l_rec.c', ['lib'], (['NB=2', 'FORMS=11', 'CAPTURES=4'], 300), reach=('end', 'cyclic', 'abort'),
              bounds='2 mutually recursive bindings of 11 forms each, each referring to any of them, captured in 4 ways'),
    'rec3': H('l_rec.c', ['lib'], (['NB=3', 'FORMS=6', 'CAPTURES=1'], 300), (['NB=3', 'FORMS=11', 'CAPTURES=1'], 7000), reach=('end', 'cyclic', 'abort'),
              bounds='3 mutually recursive bindings of 6 (11) forms each, each referring to any of them'),
    'abort1': H('l_eval.c', ['lib'], (['MODE=2', 'DEPTH=1', 'ABORTS=1', 'LEAVES=0', 'ROUNDS=2'], 300), (['MODE=2', 'DEPTH=2', 'ABORTS=1', 'LEAVES=0', 'ROUNDS=2'], 7000),
                reach=('end', 'abort', 'after abort'),
                bounds='every program of nesting depth 1 (2) that may abort at any evaluation, run twice on one heap with every argument value'),
    'profile_runs': H('l_eval.c', ['lib'], (['MODE=3', 'DEPTH=1', 'LEAVES=2'], 300), (['MODE=3', 'DEPTH=2', 'LEAVES=1'], 7000), reach=('end', 'profiled'),
                      bounds='every program of nesting depth 1 (2), profiled and not profiled'),
    'profile_history': H('v_prof.c', ['lib'], (['BLOCKS=2', 'STEPS=5', 'THREADS=1', 'PRE=5'], 300), (['BLOCKS=3', 'STEPS=6', 'THREADS=1', 'PRE=5'], 3400),
                         bounds='every history of 5 (6) enter/replace/sample/exit events over 2 (3) blocks'),
    'profile_threads': H('v_prof.c', ['lib'], (['BLOCKS=2', 'STEPS=3', 'THREADS=2', 'PRE=1'], 300), (['BLOCKS=2', 'STEPS=4', 'THREADS=2', 'PRE=2'], 3400),
                         bounds='every interleaving of two profiling threads with 3 (4) events in all'),
    'tail': H('v_tail.c', ['lib'], (['WIN=30'], 300), (['WIN=300'], 3400),
              bounds='loops of 19 styles compared over windows of 30 (300) iterations'),
    'tyeq2': H('l_tyeq.c', ['lib'], (['NODES=2', 'FORMS=9', 'FULL=1', 'UNITS=1'], 300), reach=('end', 'equal', 'different'),
               bounds='every pair of mutually recursive type definitions of 9 forms'),
    'tyeq3': H('l_tyeq.c', ['lib'], (['NODES=3', 'FORMS=6', 'FULL=0', 'UNITS=0'], 300), (['NODES=3', 'FORMS=9', 'FULL=1', 'UNITS=0'], 7000), reach=('end', 'equal', 'different'),
               bounds='every triple of mutually recursive type definitions of 6 (9) forms, two of them compared'),
    'tyhk': H('l_tyhk.c', ['lib'], (['MODE=0', 'D1=2', 'D2=1'], 400), (['MODE=0', 'D1=2', 'D2=2'], 7000), reach=('end', 'equal', 'different'),
              bounds='pairs of type functions of term depth 2 and 1 (2) over type variables of kinds @, <@>@, <@,@>@ and <<@>@>@, structs and redexes, compared as arguments, applied, and as types of polymorphic values'),
    'tykind': H('l_tyhk.c', ['lib'], (['MODE=1', 'DEPTH=2'], 400), (['MODE=1', 'DEPTH=3'], 3000), reach=('end', 'equal', 'different'),
                bounds='pairs of kinds of depth up to 2 (3), as the kind of a polymorphic value, of a type argument of a type or a value, and of a type definition'),
    'tycast': H('l_tyeq.c', ['lib'], (['NODES=2', 'FORMS=9', 'FULL=1', 'UNITS=1', 'CAST=1'], 300), (['NODES=3', 'FORMS=9', 'FULL=0', 'UNITS=0', 'CAST=1'], 7000), reach=('end', 'equal', 'different'),
                bounds='every pair (triple) of mutually recursive type definitions of 9 forms, compared inside an abstract cast'),
    'bytes': H('l_parse.c', ['lib'], (['MODE=0', 'N=4'], 300), (['MODE=0', 'N=5'], 7000), reach=('end', 'accepted', 'rejected'),
               bounds='every file of 4 (5) bytes'),
    'deep': H('l_parse.c', ['lib'], (['MODE=2', 'N=2'], 300), (['MODE=2', 'N=4'], 7000), reach=('end', 'accepted', 'rejected'),
              bounds='13 constructs nested or repeated 70 and 140 (up to 280) times'),
    'tokens': H('l_parse.c', ['lib'], (['MODE=1', 'N=5'], 300), (['MODE=1', 'N=7'], 7000), reach=('end', 'accepted', 'rejected'),
                bounds='every text of 5 (7) tokens out of 25'),
    'bytes_in': H('l_parse.c', ['lib'], (['MODE=0', 'N=2', 'CTX=1'], 300), (['MODE=0', 'N=3', 'CTX=1'], 7000), reach=('end', 'accepted', 'rejected'),
                  bounds='every 2 (3) bytes between one of 11 beginnings and one of 7 ends'),
    'tokens_in': H('l_parse.c', ['lib'], (['MODE=1', 'N=3', 'CTX=1'], 300), (['MODE=1', 'N=5', 'CTX=1'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='every 3 (5) tokens out of 25 between one of 21 beginnings and one of 7 ends'),
    'path_plain': H('l_path.c', ['lib'], (['MODE=0', 'LEN=2'], 300), (['MODE=0', 'LEN=4'], 7000), reach=('end', 'printed'),
                    bounds='paths of 1..3 components of up to 2 (4) arbitrary characters without special meaning'),
    'path_quoted': H('l_path.c', ['lib'], (['MODE=1', 'LEN=3'], 300), (['MODE=1', 'LEN=4'], 7000), reach=('end', 'printed'),
                     bounds='paths of 1..3 quoted components of up to 2 (3) arbitrary characters'),
    'path_equal': H('l_path.c', ['lib'], (['MODE=2', 'LEN=3'], 300), (['MODE=2', 'LEN=4'], 7000), reach=('end', 'equal', 'member', 'neither'),
                    bounds='two paths of 0..3 components of up to 2 (3) arbitrary characters'),
    'path_text': H('l_path.c', ['lib'], (['MODE=3', 'LEN=3'], 300), (['MODE=3', 'LEN=5'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='every string of 3 (5) characters, alone and after /a and a quote'),
    'fbld_eval': H('f_eval.c', ['fbld'], (['BUDGET=2', 'LEAFMASK=0x1a'], 300), (['BUDGET=2', 'LEAFMASK=0x3f'], 3400), reach=('end', 'accepted', 'rejected'),
                   bounds='documents of up to 2 commands of any form and 3 (6) forms of leaves'),
    'fbld_nest': H('f_eval.c', ['fbld'], (['BUDGET=3', 'LEAFMASK=0x10'], 300), (['BUDGET=3', 'LEAFMASK=0x18'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='documents of up to 3 commands of any form, with 1 (2) forms of leaves'),
    'fbld_errs': H('f_eval.c', ['fbld'], (['BUDGET=2', 'ERRS=1', 'LEAFMASK=0x15'], 300), (['BUDGET=3', 'ERRS=1', 'LEAFMASK=0x14'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='documents of up to 2 (3) commands of any form, failing ones and wrong numbers of arguments included'),
    'fbld_bytes': H('f_parse.c', ['fbld'], (['MODE=0', 'N=3', 'EVAL=1', 'CTX=1'], 300), (['MODE=0', 'N=4', 'EVAL=1', 'CTX=1'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='every 3 (4) bytes between one of 15 beginnings and one of 5 ends'),
    'fbld_tokens': H('f_parse.c', ['fbld'], (['MODE=1', 'N=5'], 300), (['MODE=1', 'N=7'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='every text of 5 (7) characters out of 11'),
    'fbld_tokens_in': H('f_parse.c', ['fbld'], (['MODE=1', 'N=3', 'CTX=1'], 300), (['MODE=1', 'N=5', 'CTX=1'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='every 3 (5) characters out of 11 between one of 15 beginnings and one of 5 ends'),
    'fbld_cmds': H('f_parse.c', ['fbld'], (['MODE=2', 'N=4', 'EVAL=1'], 300), (['MODE=2', 'N=6', 'EVAL=1'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='every 4 (6) tokens out of 20 after some definitions'),
    'fbld_text': H('f_parse.c', ['fbld'], (['MODE=0', 'N=2', 'CTX=1'], 300), (['MODE=0', 'N=4', 'CTX=1'], 7000), reach=('end', 'accepted', 'rejected'),
                   bounds='every 2 (4) bytes but 0 and 3 between one of 15 beginnings and one of 5 ends'),
    'alloc': H('a_alloc.c', [], (['STEPS=4', 'FBLD=0'], 300), (['STEPS=5', 'FBLD=0'], 7000),
               bounds='every history of 5 (7) allocations, resizes, frees and resets with any sizes of 12 bits, plus 2^33 or not'),
    'alloc_fbld': H('a_alloc.c', [], (['STEPS=5', 'FBLD=1'], 300), (['STEPS=6', 'FBLD=1'], 7000),
                    bounds='every history of 5 (7) allocations, resizes and frees with any sizes of 12 bits, plus 2^33 or not'),
    'vectors': H('a_vec.c', ['mem_fble'], (['NMAX=70', 'NLONG=70000', 'FBLD=0'], 300), (['NMAX=300', 'NLONG=1100000', 'FBLD=0'], 7000),
                 bounds='pairs of arrays of up to 70 (300) arbitrary elements of 4 sizes; single arrays of up to 70000 (1100000) elements'),
    'vectors_fbld': H('a_vec.c', ['mem_fbld'], (['NMAX=70', 'NLONG=70000', 'FBLD=1'], 300), (['NMAX=300', 'NLONG=1100000', 'FBLD=1'], 7000),
                      bounds='pairs of arrays of up to 70 (300) arbitrary elements of 4 sizes; single arrays of up to 70000 (1100000) elements'),
    'load_graph': H('l_load.c', ['lib'], (['MODE=0', 'M=3', 'IMPORTS=2'], 300), (['MODE=0', 'M=4', 'IMPORTS=2'], 7000), reach=('end', 'loaded', 'failed', 'linked'),
                    bounds='every graph of 3 (4) modules with up to 2 imports each, imports of modules that do not exist and syntax errors included'),
    'load_search': H('l_load.c', ['lib'], (['MODE=1', 'M=2', 'IMPORTS=1', 'DIRS=2'], 300), (['MODE=1', 'M=3', 'IMPORTS=1', 'DIRS=3'], 7000), reach=('end', 'loaded', 'failed', 'linked'),
                     bounds='2 (3) modules, each in any subset of 2 (3) directories with any imports'),
    'core_int': H('c_core.c', ['lib', 'core'], (['MODE=0', 'BITS=6', 'STEP=5'], 300), (['MODE=0', 'BITS=12', 'STEP=4'], 3400), reach=('end', 'min', 'max', 'zero'),
                  bounds='64 bit integers: any 6 (12) neighbouring bits arbitrary, the others all 0, all 1 or alternating'),
    'core_text': H('c_core.c', ['lib', 'core'], (['MODE=1', 'LEN=1'], 300), (['MODE=1', 'LEN=2'], 3400), reach=('end', 'unsupported'),
                   bounds='strings with up to 1 (2) arbitrary characters in a row, between up to 2 and 5 others'),
    'core_io': H('c_core.c', ['lib', 'core'], (['MODE=2', 'OPS=2'], 300), (['MODE=2', 'OPS=3'], 3400), reach=('end', 'byte', 'eof', 'file'),
                 bounds='every history of up to 2 (3) stdio operations, one byte arbitrary, others from 3'),
    'core_main': H('c_core.c', ['lib', 'core'], (['MODE=3', 'ITEMS=3'], 300), (['MODE=3', 'ITEMS=5'], 3400), reach=('end', 'ran', 'ran compiled', 'help', 'version', 'usage', 'undefined', 'args'),
                   bounds='command lines of up to 3 (5) options or arguments, interpreted and compiled programs'),
    'sat': H('p_pkg.c', ['lib', 'core'], (['PKG=0', 'N2=2', 'N3=2'], 600), (['PKG=0', 'N2=4', 'N3=4'], 7000), reach=('end', 'wrong', 'unsat', 'sat'),
             bounds='fble-sat: every formula of up to 2 (4) clauses of 2 variables, every subset of the 8 clauses of 3 variables, implication chains over 4, clauses with repeated literals, and malformed input', limit=4000000000),
    'md5': H('p_pkg.c', ['lib', 'core'], (['PKG=1', 'LENS=7', 'PATTERNS=3', 'FILES=0'], 600), (['PKG=1', 'LENS=21', 'PATTERNS=5', 'FILES=0'], 7000), reach=('end', 'hashed'),
             bounds='fble-md5: messages of 7 (21) lengths around the block boundaries with 3 (5) contents', limit=4000000000),
    'md5_files': H('p_pkg.c', ['lib', 'core'], (['PKG=1', 'LENS=2', 'PATTERNS=1', 'FILES=3'], 600), (['PKG=1', 'LENS=6', 'PATTERNS=2', 'FILES=3'], 7000), reach=('end', 'no file'),
                   bounds='fble-md5 of a file after one that does not exist, 2 (6) lengths', limit=4000000000),
    'tictactoe': H('p_pkg.c', ['lib', 'core'], (['PKG=2', 'OPEN=1', 'AIFREE=4'], 600), (['PKG=2', 'OPEN=3', 'AIFREE=5'], 7000), reach=('end', 'move', 'taken', 'over', 'computer', 'reset', 'invalid'),
                   bounds='tic-tac-toe: every opening of 2 (4) moves, games played to the end in 2 orders with swaps, then the computer (up to 4 (5) squares free), 8 boards from which the computer plays, then any reply, then the computer, moves on taken squares, reset, quit, end of input and invalid lines', limit=4000000000),
    'life': H('p_pkg.c', ['lib', 'core'], (['PKG=3', 'H_=3', 'W_=3', 'PLACES=1'], 600), (['PKG=3', 'H_=3', 'W_=4', 'PLACES=4'], 7000), reach=('end', 'world', 'pattern'),
              bounds='game of life: every world of 3 by 3 (3 by 4) cells at 1 (4) places, and 6 patterns for up to 2 steps', limit=4000000000),
    'hw_add': H('p_pkg.c', ['lib', 'core'], (["PKG=4", "ADD=1", "ADDS=4", "RULES=0", "KINDS=1", "PAIRS=0"], 600), (["PKG=4", "ADD=2", "ADDS=16", "RULES=0", "KINDS=1", "PAIRS=0"], 7000), reach=('end', 'sum'),
                bounds='the 1 and 2 bit adders on all inputs (the 4 bit adder on all inputs)', limit=4000000000),
    'hw_step': H('p_pkg.c', ['lib', 'core'], (["PKG=4", "ADD=0", "ADDS=1", "RULES=2", "KINDS=7", "PAIRS=1"], 600), (["PKG=4", "ADD=0", "ADDS=1", "RULES=2", "KINDS=11", "PAIRS=0"], 7000), reach=('end', 'rule', 'blocked'),
                 bounds='one step of designs of up to 2 of 7 (11) rules placed alone or (one rule; two) in nested designs, on every memory of 2 by 2 cells (two rules: where the first applies; all)', limit=4000000000),
    'fbld2': H('p_fbld.c', ['lib', 'core', 'fbld_also'], (['TOKENS=1', 'PIECES=1', 'ENDS0=2', 'ENDS1=3', 'DEPTH=1'], 800), (['TOKENS=3', 'PIECES=3', 'ENDS0=4', 'ENDS1=3', 'DEPTH=2'], 14000), reach=('end', 'accepted', 'refused'),
               bounds='documents: one of 12 beginnings, 1 (3) of 11 syntax tokens, one of 2 (4) ends; one of 5 beginnings, 1 (3) of 14 pieces of commands, one of 3 ends; up to 1 (2) nested commands of 19 forms; a block command with inline, same line, literal, next line, continued and final arguments (348 shapes); head, tail and comparison of 8 forms of strings; 192 combinations of parameters, bodies, redefinitions and calls; 17 texts with syntax characters at 5 places', limit=4000000000),
    'lib_int': H('c_core.c', ['lib', 'core'], (['MODE=4', 'LIB=0', 'BITS=3'], 300), (['MODE=4', 'LIB=0', 'BITS=6'], 3400),
                 bounds='functions of Int@: every pair of a number within 4 (32) of 0, 255, -70001 or 6000000000 and one within 4 (32) of 0 or 255', limit=400000000),
    'lib_text': H('c_core.c', ['lib', 'core'], (['MODE=4', 'LIB=1', 'LEN=2'], 300), (['MODE=4', 'LIB=1', 'LEN=3'], 3400),
                  bounds='functions of Char@: every character; of String@: every pair of strings of up to 2 (3) of 3 characters', limit=400000000),
    'lib_list': H('c_core.c', ['lib', 'core'], (['MODE=4', 'LIB=2', 'KINDS=0', 'STEPS=4', 'KEYS=5'], 300), (['MODE=4', 'LIB=2', 'KINDS=0', 'STEPS=6', 'KEYS=5'], 3400), reach=('end', 'list'),
                  bounds='functions of List@: every list of up to 4 (6) of 4 numbers', limit=400000000),
    'lib_map': H('c_core.c', ['lib', 'core'], (['MODE=4', 'LIB=2', 'KINDS=1', 'STEPS=2', 'KEYS=7'], 300), (['MODE=4', 'LIB=2', 'KINDS=1', 'STEPS=3', 'KEYS=10'], 3400), reach=('end', 'map'),
                 bounds='Map@: after up to 7 (10) insertions in increasing or decreasing order of keys, every history of 2 (3) insertions and deletions of any key, or 1 and a union', limit=400000000),
    'lib_set': H('c_core.c', ['lib', 'core'], (['MODE=4', 'LIB=2', 'KINDS=2', 'STEPS=3', 'KEYS=4'], 300), (['MODE=4', 'LIB=2', 'KINDS=2', 'STEPS=5', 'KEYS=6'], 3400), reach=('end', 'set', 'fifo'),
                 bounds='Set@ (as Map@, 4 (6) keys) and Fifo@: every history of up to 5 (7) puts and takes', limit=400000000),
    'link_generated': H('l_load.c', ['lib'], (['MODE=2', 'M=4'], 300), (['MODE=2', 'M=4'], 7000),
                        bounds='every acyclic graph of up to 4 generated modules with imports in any order'),
    'arg_words': H('a_args.c', ['lib'], (['MODE=0', 'LEN=4'], 300), (['MODE=0', 'LEN=6'], 3400), reach=('end', 'string', 'no string', 'module arg'),
                   bounds='every pair of words of up to 3 (5) and 2 characters, given to each option parser'),
    'args_deps': H('a_args.c', ['lib', 'bins'], (['MODE=1', 'TOOL=0', 'WORDS=9'], 300), (['MODE=1', 'TOOL=0', 'WORDS=10'], 3400), reach=('end', 'help', 'version', 'usage', 'works'),
                   bounds='fble-deps command lines of up to 9 (10) words, every sequence of options with typical values'),
    'args_compile': H('a_args.c', ['lib', 'bins'], (['MODE=1', 'TOOL=1', 'WORDS=7'], 300), (['MODE=1', 'TOOL=1', 'WORDS=9'], 3400), reach=('end', 'help', 'version', 'usage', 'works'),
                   bounds='fble-compile command lines of up to 7 (9) words, every sequence of options with typical values'),
    'args_disassemble': H('a_args.c', ['lib', 'bins'], (['MODE=1', 'TOOL=2', 'WORDS=9'], 300), (['MODE=1', 'TOOL=2', 'WORDS=11'], 3400), reach=('end', 'help', 'version', 'usage', 'works'),
                   bounds='fble-disassemble command lines of up to 9 (11) words, every sequence of options with typical values'),
    'save_deps': H('l_deps.c', ['lib'], (['MODE=0', 'DEPS=3', 'LENS=8'], 300), (['MODE=0', 'DEPS=4', 'LENS=11'], 3400),
                   bounds='a target and up to 3 (4) files, with names of 8 (11) lengths from 1 to 80 (300) and one of any 1..3 characters'),
    'find_package': H('l_deps.c', ['lib'], (['MODE=1', 'DIRS=3', 'LEN=2'], 300), (['MODE=1', 'DIRS=4', 'LEN=3'], 3400), reach=('end', 'found', 'not found'),
                   bounds='package names of 1..2 and package paths of up to 3 (4) directories of 0..2 (3) arbitrary characters, each having the package or not'),
    'unused1': H('l_unused.c', ['lib'], (['BUDGET=1', 'REFS=4', 'LEAVES=9', 'NESTED=0'], 300), (['BUDGET=1', 'REFS=5', 'LEAVES=9', 'NESTED=0'], 3400), reach=('end', 'used', 'unused'),
                 bounds='every binding form with any names and any references in its parts'),
    'unused2': H('l_unused.c', ['lib'], (['BUDGET=2', 'REFS=2', 'LEAVES=4', 'NESTED=1'], 300), (['BUDGET=2', 'REFS=3', 'LEAVES=6', 'NESTED=1'], 7000), reach=('end', 'used', 'unused'),
                 bounds='every form in every part of every binding form, with any names and up to 2 (3) references'),
}
PROPS = {
    'C20': ['report', 'perf', 'perf_any', 'perf_args'],
    'C19': ['unused1', 'unused2'],
    'C22': ['save_deps', 'find_package', 'load_search', 'args_deps'],
    'C18': ['arg_words', 'args_deps', 'args_compile', 'args_disassemble'],
    'C17': ['core_int', 'core_text', 'core_io', 'core_main'],
    'C23': ['assembled', 'assembled_abort', 'assembled_special'],
    'C24': ['lib_int', 'lib_text'],
    'C25': ['lib_list', 'lib_map', 'lib_set'],
    'C12': ['load_graph', 'load_search', 'link_generated'],
    'C15': ['compiled', 'compiled_abort', 'compiled_special'],
    'C16': ['alloc', 'alloc_fbld', 'vectors', 'vectors_fbld'],
    'C14': ['fbld_eval', 'fbld_nest', 'fbld_tokens', 'fbld_tokens_in', 'fbld_text'],
    'C13': ['fbld_errs', 'fbld_bytes', 'fbld_cmds'],
    'C11': ['path_plain', 'path_quoted', 'path_equal', 'path_text'],
    'C10': ['deep', 'bytes', 'bytes_in', 'tokens', 'tokens_in'],
    'C01': ['pack_tree', 'pack_union', 'pack_wide', 'lists', 'chunks'],
    'C02': ['gc_history', 'gc_rounds', 'loop'],
    'C03': ['apply'],
    'C04': ['eval'],
    'C26': ['sat'],
    'C27': ['md5', 'md5_files'],
    'C28': ['tictactoe', 'life'],
    'C30': ['fbld2'],
    'C29': ['hw_add', 'hw_step'],
    'C05': ['types1', 'names', 'any1', 'any3', 'any_nest'],
    'C06': ['tyeq2', 'tyeq3', 'tycast', 'tyhk', 'tykind'],
    'C07': ['abort1'],
    'C08': ['rec2', 'rec3'],
    'C09': ['profile_runs', 'profile_history', 'profile_threads'],
    'C21': ['tail', 'loop', 'chunks'],
}
