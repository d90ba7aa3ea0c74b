"""Per-property plan: level, budgets, and what every proof assumes or trusts."""
ASSUMPTIONS = [
    'CPython semantics of the executed subset are those implemented in pyvc/engine.py (statements, expressions, classes, properties, closures, exceptions, generators run to their end); code outside the subset is reported as not proved, never guessed',
    'integers are mathematical integers (as in CPython); memory and recursion limits are not modelled',
    'inputs have the annotated types where a property names none; objects are built by the real constructors and reached by one thread (no concurrent mutation), and no caller reaches into private fields',
    'models of builtins and library functions used by the code (pyvc/stdlib.py): len, range, zip, enumerate, map, sorted / list.sort (a stable rearrangement ordered by the key), heapq.heappush (keeps the contents, order unknown), bisect.insort, max/min/sum/any/all, dict (insertion, lookup, iteration visits each key once), str / bytes / bytearray / int.to_bytes / int.from_bytes / int.bit_length, re (the pattern is parsed with the stdlib parser and interpreted symbolically), io.BytesIO and file objects (read(n) gives min(n, what is left) bytes; write appends)',
    'lemmas about powers of two, bit length, bit-and, rounding of products with a factor in [0, 1], the reader\'s recursive specification functions and multisets are instantiated by pyvc/theory.py; names and counts are in coverage.lemma_instances; coverage.lemma_basis says what justifies each: lean/Lemmas.lean proves them (for rounding: from monotonicity and exactness on representable numbers), div_127 is checked exhaustively on every run',
]
TRUSTED = ['pyvc (the verification-condition generator of this repository: engine, loop rule, models of builtins, lemma instantiation)', 'z3', 'cvc5', 'the CPython 3.12 ast parser', 'the specification text in contracts/*.py']
FP = 'floats: comparisons are IEEE-754 binary64 in the solver; products, quotients and conversions are uninterpreted functions with the lemmas fmul_unit, div_127, f2i_nonneg, f2i_127 (correct rounding, monotone)'
PLAN = {f'C{i:02d}': {} for i in range(1, 25)}
for p in ('C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C16', 'C17', 'C20', 'C21', 'C22', 'C23', 'C24'): PLAN[p].setdefault('assumptions', []).append(FP)
PLAN['C04']['assumptions'] = ['text is ASCII: the digits of the notation language are 0-9 (int() also takes other decimal digits, which the property does not mention)']
PLAN['C05']['assumptions'] = ['decimal text of an int, and int() of it, are inverse; CPython refuses conversions above 4300 digits, so octave numbers beyond that are outside the statement (elsewhere the engine lets the conversion of a longer number raise ValueError)']
PLAN['C07'].update(assumptions=['over the reals: float rounding is not modelled; powr(x) stands for 2**x with the lemmas powr_pos, powr_zero, powr_mono, powr_step'],
                   note='The formula is proved over the real numbers; agreement of the rounded result within 1e-9 relative is a bounded concrete check only.')
PLAN['C19']['assumptions'] = ['termination is proved with a decreasing measure per loop (bytes left); time and memory use are not bounded']
PLAN['C23']['assumptions'].append('random.gauss and friends return an arbitrary float, also NaN and infinities')
PLAN['C24']['assumptions'].append('the numbers written have at most 4300 digits (CPython refuses to write longer ones)')
PLAN['C24']['assumptions'].append('repr() of a finite float and the decimal text of an int evaluate to that number (documented CPython round trip)')
