"""writes MANIFEST.json (run by hand)"""
import json
T = {
 'C01': 'contracts of abs_val_add/abs_val_sub/magnitude comparisons and operator+, += with value postconditions over digit sums',
 'C02': 'contracts of abs_val_sub/abs_val_add/magnitude comparisons and operator-, -= with value postconditions over digit sums',
 'C03': 'contracts of mul_naive, mul_strassen and operator*, *=; rounding in the FFT kernel enters as an explicit assumption',
 'C04': 'contracts of abs_val_div, its doubling helper and operator/, /= with quotient/remainder postconditions',
 'C05': 'contracts of the five magnitude comparisons and the six operators',
 'C06': 'well-formedness postconditions of every arithmetic operation and constructor',
 'C07': 'frame conditions, the same postconditions for aliased operands, and client lemmas (binary = compound) with uniqueness of the digit representation',
 'C08': 'postconditions of the arithmetic operators for infinite and NaN operands',
 'C09': 'postconditions of the comparison operators for infinite and NaN operands',
 'C10': 'bounds, overflow, shift, division, conversion and termination obligations generated for every function',
 'C11': 'contract of the digit-list constructor (Horner value) and the default constructor',
 'C12': 'contract of operator<< over a ghost output stream',
 'C13': 'contracts of every editing and observing member function, for an arbitrary index',
 'C14': 'contracts of every operator of the integer wrapper against the built-in operator',
 'C15': 'exceptional postconditions: every allocation may fail, on every path',
 'C16': 'contracts of copy and move construction and assignment',
 'C17': 'client lemmas: small functions over the operators, verified against the operators\' contracts',
 'C18': 'contracts of isPow2, nextPow2 (bit vectors) and create_fft_table',
 'C19': 'contracts of fft_complex, ifft_complex and convolute_fft over the reals (discrete Fourier transform by its recursion), round-trip client lemmas, machine-checked theorems in Lean',
}
NOTE = ('Every obligation generated from /repo\'s current source (instantiated templates, all seven digit bases) is discharged by z3 for all inputs and all '
        'loop iterations; loop invariants are in contracts/loops.json. A search for failing inputs on the compiled library runs first and only serves to '
        'find a concrete counterexample. Trusted: clang\'s AST, the executor and container models in dv/, the lemma schemas (each proved by induction by dv/lemmas.py), z3. ')
EXTRA = {
 'C03': 'Assumes that rounding keeps the FFT kernel within 1/4 of the exact sums below the library\'s exactness limit (without rounding: proved by C19); multiplication of shorter numbers in mul_naive and all rounding, carrying and padding around the kernel is proved.',
 'C06': 'Callee value postconditions are proved by the checks of C01-C05.',
 'C07': 'Callee value postconditions are proved by the checks of C01-C05.',
 'C08': 'Callee value postconditions are proved by the checks of C01-C05.',
 'C10': 'Callee value postconditions are proved by the checks of C01-C05. The concrete search runs under ASan/UBSan.',
 'C14': 'The 16-bit product that overflows int in the built-in operation is excluded (undefined there).',
 'C19': 'Proved over the reals: floating point operations, sine and cosine count as exact. The size of the rounding errors is not proved: it is only searched (round trips and convolutions on the compiled code, lengths up to the search\'s bound), labelled bounded in the evidence.',
 'C18': 'create_fft_table is proved for digit lists shorter than 2^56.',
}
checks = []
for p in T:
    checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': 'contract-based deductive verification of the extracted code: ' + T[p], 'level': 'proof', 'level_note': (NOTE + EXTRA.get(p, '')).strip()})
m = {'version': 1, 'setup_cmd': 'bash extract/build.sh build', 'checks': checks,
     'not_applicable': [],
     'notes': 'No hooks: the checks read /repo as it is. known_findings.txt lists the repaired defects.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
