#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the LLVM IR'
CLAIM = {
    'C01': (AI + ': cursor/length/size relations, bounds obligation at every access',
            'every parse function for every input; inputs below 2^31 bytes, malloc succeeds'),
    'C02': (AI + ': ownership and typestate of every heap block, per path',
            'every parse/write/free/init/add function; callees by contracts that are themselves checked'),
    'C03': (AI + ': definite initialisation and nullness of every value used', 'all functions that take or build objects'),
    'C04': (AI + ': typestate of the error flag at every return', 'every parse function, called with and without a pending error'),
    'C05': (AI + ': exact consumption, element events contiguous on every successful path', 'every parse function, every count'),
    'C06': (AI + ': a quantity that moves in every round within the size of the input, for every loop; size of every allocation',
            'every loop and allocation of the parse functions, every input'),
    'C22': (AI + ': every change of a parsed value with the conditions known at that point; ghost for the serial number seen', 'every list of any number of entries, every time'),
    'C07': (AI + ': provenance of the checksum compared on every delivering path', 'sml_message_parse and its callees'),
    'C08': (AI + ': invariant of the message loop (end of the last message, number of messages, fill bytes)', 'every input, any number of messages'),
    'C09': (AI + ': tag-to-type tables extracted from parse, write and free paths', 'all message and value tags'),
    'C10': (AI + ': wire layout extracted per path and compared with the specification', 'every structured type, loops by invariants'),
    'C11': (AI + ': emitted layout extracted per path and compared with the specification', 'every write function, loops by invariants'),
    'C19': ('effect analysis: points-to of every static object over the whole library, calls into shared C library state; ' + AI,
            'all library functions; external functions by a table of effects'),
    'C20': (AI + ': writes through input pointers and reachability of the input from every result', 'all parse and init functions'),
    'C21': ('effect analysis on the call graph (process exits, signals, stdout); ' + AI + ' for conditional aborts', 'all library functions, direct and function pointer calls'),
    'C24': ('recursion analysis on the call graph, bound on the depth argument and on stack blocks by ' + AI, 'all library functions'),
    'C28': ('type-level witnesses compiled against the headers, declared/defined/exported symbol tables from the compiled sources',
            'all public headers, C99 and C++, with and without SML_NO_UUID_LIB'),
    'C25': (AI + ': array and list contents at every exit of the add functions compared with the contents at entry',
            'every add function; any number of earlier elements'),
    'C29': (AI + ': value of every field of the new object at every exit', 'every init function, all argument values'),
    'C13': (AI + ': decoded/encoded TL bytes compared bit field by bit field with the definition, header loops executed round by round',
            'every first byte, every header of up to 4 bytes, every length up to 2^28'),
    'C14': (AI + ': value of every byte of every integer, boolean and octet string compared with the definition at every exit',
            'all field sizes, all encoded sizes, all byte values'),
    'C15': ('abstract interpretation of the LLVM IR over GF(2)-affine bit vectors, induction over the bytes',
            'every byte string of every length up to 2^30'),
    'C16': (AI + ': loop invariants over the device stream, product with the start sequence automaton',
            'every byte stream and every buffer size; descriptors below 64'),
    'C17': (AI + ': content of the buffer handed to write, byte by byte at every exit', 'every file, every payload length modulo four, every outcome of write'),
    'C18': (AI + ': typestate of the descriptor (short read, EINTR, EAGAIN, error, end) and position of every byte stored',
            'every sequence of read outcomes, every requested length'),
    'C23': (AI + ': value of every character written and every byte decoded compared with the definition, loops by an invariant over converted bytes',
            'every string of every length, every value of the eight integer types'),
    'C26': (AI + ': every access of the receiver to the parsed file, over what the parser is shown to return; same rules on every library function it uses',
            'every frame, every combination of absent fields and value types'),
    'C27': (AI + ' of both build configurations: content of the id, typestate of the descriptor of the random source', 'every outcome of open and read'),
    'C30': (AI + ': what is written and what is read, extracted per path, both compared with one specification (layout, tags, lengths, integers, order)',
            'every write, parse and add function; lists, trees and sequences of any length by invariants'),
    'C12': (AI + ': bounds obligation at every access to the output buffer', 'every write function; encoded size below 2^31 bytes'),
}
NA = {
    'C31': 'a probabilistic statement about the output of a random source, not a property of the source code; the static part is C27',
    'C32': 'depends on the rounding of floating point arithmetic and printf over the whole range of 64-bit values, out of reach of a sound static argument here',
    'C33': 'a liveness and timing property of select/read on a device; no static argument bounds when data arrive (safety of the same code: C16, C18)',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIM:
            t, n = CLAIM[i]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                           'technique': t, 'level': 'other', 'level_note': 'static analysis; ' + n})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
