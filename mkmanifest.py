#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
COMMON = ('Assumes the contracts of bytes::Bytes and the few std functions in vx/base.vrs, the mechanical weaving (DESIGN.md), 64-bit usize and Verus/Z3 themselves. '
          'Runtime functions are proved for all inputs and all element types; decoders and size functions for all inputs, specification by specification (fixed corpus plus random ones by seed). ')
P0 = 'contract-based deductive verification (Verus)'
P = P0 + ' of the real runtime and generated decoders'
B = 'bounded stand-in: real code against an independent oracle'
T = {
 'C01': (P + ': accepts/value/advances postconditions; bounded round trips for failing inputs', 'proof', COMMON + 'Bounded companion: encodings of random values decoded by the compiled generated code.'),
 'C02': (P + ': ret == s_T(self) for every wire_size and consumed == s_T(value); bounded companion', 'proof', COMMON),
 'C03': (P + ': both decoders meet the same functional contract; cursor postcondition; bounded companion', 'proof', COMMON),
 'C04': (P + ': absence of arithmetic overflow, failed preconditions of bytes, and non-termination; bounded companion', 'proof', COMMON + 'Stack depth is not modelled by the prover; it is exercised by the bounded companion only.'),
 'C05': (P + ': rejects/error postconditions against the declared maxima; bounded companion', 'proof', COMMON),
 'C06': (P + ': accepts/rejects/error/value postconditions; bounded companion', 'proof', COMMON),
 'C08': (P + ': view postcondition (allocation and offset of every opaque payload); bounded companion', 'proof', COMMON + 'Elements of the model: a slice of Bytes shares the allocation.'),
 'C09': (P + ': preconditions on every reservation and a loop invariant that input pays for each element; counting allocator as bounded companion', 'proof', COMMON + 'Growth by push is taken as amortised linear.'),
 'C12': ('contract-based deductive verification (Verus) of the parser side (src/ast): every constructor, try_walk and the three indexes under contract, from the parse tree to Ast; bounded companion for the grammar level', 'proof',
         'From the parse tree on, for all specifications: what the Ast holds is a stated function of the declarations (names, values, fields in order with type, array kind, bound and optional flag, arms with their complete labels, default, void labels, typedefs, constants). Trusted: pest builds the tree src/xdr.pest describes (child rules are derived from the grammar on every run); std strings, maps, iterators by the contracts in vx/ast.vrs; the weaving (DESIGN.md). Layout and comments (the grammar itself) are exercised by the bounded companion.'),
 'C10': (P + ': contracts of every reader and size helper in src/header.rs; bounded companion', 'proof', COMMON),
}
N = {'C07': 'compiles the generated modules and compares their items with the declared shape', 'C11': 'byte comparison across processes, layouts and orders', 'C12': 'AST dump against the declarations',
      'C15': 'the CLI binary against the library'}
Q0 = 'Bounded for the emitted code; proved by contracts in the same run: '
Q = 'Bounded for the emitted code; the parser side is proved by contracts in the same run: '
TX = 'vx/text.vrs states the whole text of the module as a function of the declarations and every emitter is proved to write it (theorem module_text; when a change puts it out of reach it is not claimed, and the bounded companion decides)'
M = {}
T['C13'] = ('contract-based deductive verification (Verus): GenericIndex::new == reachability (fixpoint loop, monotone passes, soundness and completeness lemmas) and, for the second sentence, the text every emitter writes; bounded companion', 'proof',
            'Ast::generics() holds a name exactly when opaque data is reachable from it, for every graph of declarations (no bound). Second sentence: ' + TX + '; bound, head_from and head_size there carry the parameter exactly for the names in generics(). Trusted: pest, std by the contracts in vx/ast.vrs and vx/gen.vrs, the weaving (DESIGN.md).')
T['C14'] = (P0 + ' of src/ast, src/impls, the Display implementations and Generator::generate: no reachable panic, failed unwrap, index or overflow, every loop and recursion decreases; bounded companion', 'proof',
            'For every parse tree pest can build for the grammar; Err whenever pest rejects. Trusted: pest itself, std by the contracts in vx/ast.vrs and vx/gen.vrs, the weaving (DESIGN.md). Stack depth and memory are not modelled by the prover; deep nesting and the grammar are exercised by the bounded companion.')
T['C15'] = (P0 + ' of src/main.rs: exit status and standard output as a function of the arguments, the files and Generator::generate; bounded companion runs the real binary', 'proof',
            'For all argument lists and file contents. Trusted: the contracts of env, fs, print and exit in vx/main.vrs; that generate is a function of its text (C11); that the Rust runtime reports an Err returned from main.')
M['C07'] = (B + ' (compiles the generated modules and compares their items with the declared shape); escaping of names and, for all specifications, the text of every item proved by contract', 'exploration', Q0 + 'the Rust spelling of every field, type and arm name (reserved words, leading digits); ' + TX + '. That the text compiles is rustc\'s verdict on the specifications tried.')
M['C11'] = (B + ' (byte comparison across processes, layouts and declaration orders); determinism and independence of declaration order proved for the whole text by contract', 'exploration', 'Proved by contracts for all specifications: ' + TX + '; one text gives one module (c11_one_text_one_module); the same declarations in any order give the same module when each type name is declared once (c11_any_order); an alarm on the three indexes of Ast::new names the failed obligation. Bounded: white space and comments between tokens, which is the grammar\'s (pest\'s) business.')
checks = []
for i in props:
    t, l, n = T.get(i) or M.get(i) or (B + ' (' + N[i] + ')', 'exploration', 'Bounded: nothing is claimed beyond the inputs tried in the run; see DESIGN.md for why no contract decides it yet.')
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i, 'technique': t, 'level': l, 'level_note': n})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': []}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
