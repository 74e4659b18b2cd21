[{"sub": 'small', "why": 'a repaired defect: library raised AssertionError:  (in uncompressed.py:getSize) on a legal input',
  "case": {'t': {'ranks': ['K'], 'shape': None, 'dims': [2], 'default': 0, 'spec': []}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": 'a repaired defect: BU, shape [3, 3]: rank 1 (U): the payloads array holds 1 entries, more are needed',
  "case": {'t': {'ranks': ['M', 'K'], 'shape': None, 'dims': [2, 3], 'default': 0, 'spec': [[1, [[0, 1]]]]}, 'extra': [1, 2, 0], 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": 'a repaired defect: CU, shape None: rank 0 fiber 0 [0, 1]: fiber handles scanned from 1: got [0], want [1]',
  "case": {'t': {'ranks': ['M', 'K'], 'shape': None, 'dims': [2, 3], 'default': 0, 'spec': [[0, [[0, 1]]], [1, [[0, 1]]]]}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'built', "why": 'a planted bug: UCU, shape None: rank 1 fiber 2 [1]: fiber handles scanned from 0: got [1], want [0]',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [3, 3, 3], 'default': 0, 'spec': [[2, [[1, [[2, 2]]]]]]}, 'xs': [], 'ops': [], 'extra': None, 'bases': [], 'descs': None}},
 {"sub": 'lookups', "why": 'a planted bug: C, shape None: rank 0 fiber 0 [2, 3, 4, 5, 6]: handle looked up for 5: got 4, want 3',
  "case": {'t': {'ranks': ['K'], 'shape': [8], 'dims': [8], 'default': 0, 'spec': [[2, 3], [3, 4], [4, 5], [5, 6], [6, 7]]}, 'xs': [], 'ops': [], 'bases': [7, 4], 'extra': None, 'descs': None}},
 {"sub": 'small', "why": 'a mutant: library raised IndexError: list index out of range (in compression_format.py:payloadToValue) on a legal input',
  "case": {'t': {'ranks': ['K'], 'shape': [3], 'dims': [2], 'default': 0, 'spec': []}, 'extra': [2], 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": 'a mutant: library raised TypeError: cannot unpack non-iterable int object (in tensor_codec.py:encode) on a legal input',
  "case": {'t': {'ranks': ['K'], 'shape': [3], 'dims': [2], 'default': 0, 'spec': []}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": 'a mutant: library raised IndexError: list index out of range (in coord_list.py:coordToHandle) on a legal input',
  "case": {'t': {'ranks': ['K'], 'shape': [3], 'dims': [2], 'default': 0, 'spec': [[0, 1]]}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": 'a mutant: no answer within 30 s of CPU time (does not terminate)',
  "case": {'t': {'ranks': ['K'], 'shape': [3], 'dims': [2], 'default': 0, 'spec': [[1, 2]]}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": 'a mutant: U, shape None: rank 0 fiber 0 [0]: size in words: got 0, want 1',
  "case": {'t': {'ranks': ['K'], 'shape': None, 'dims': [2], 'default': 0, 'spec': [[0, 0]]}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": 'a mutant: library raised IndexError: tuple index out of range (in bitvector.py:encodeFiber) on a legal input',
  "case": {'t': {'ranks': ['M', 'K'], 'shape': [2, 3], 'dims': [2, 3], 'default': 0, 'spec': []}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'small', "why": "a mutant: library raised TypeError: unsupported operand type(s) for -: 'str' and 'str' (in coord_list.py:coordToHandle) on a legal",
  "case": {'t': {'ranks': ['K'], 'shape': [3], 'dims': [2], 'default': 0, 'spec': [[0, 1], [1, 2]]}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'lookups', "why": 'a mutant: no answer within 30 s of CPU time (does not terminate)',
  "case": {'t': {'ranks': ['K'], 'shape': [8], 'dims': [8], 'default': 0, 'spec': [[0, 1], [2, 3]]}, 'xs': [], 'ops': [], 'bases': [5, 5], 'extra': None, 'descs': None}},
 {"sub": 'small', "why": 'a mutant: CC, shape None: rank 1 (C): the coords array holds 1 entries, more are needed',
  "case": {'t': {'ranks': ['M', 'K'], 'shape': [2, 3], 'dims': [2, 3], 'default': 0, 'spec': [[1, [[0, 1]]]]}, 'extra': None, 'xs': [], 'ops': [], 'bases': [1], 'descs': None}},
 {"sub": 'lookups', "why": 'a mutant: C, shape None: rank 0 fiber 0 [0, 1, 3]: coordinates scanned from 2: got [], want [3]',
  "case": {'t': {'ranks': ['K'], 'shape': [8], 'dims': [8], 'default': 0, 'spec': [[0, 1], [1, 2], [3, 4]]}, 'xs': [], 'ops': [], 'bases': [2, 3], 'extra': None, 'descs': None}},
 {"sub": 'lookups', "why": 'a mutant: C, shape None: rank 0 fiber 0 [0, 1, 2]: handle looked up for 2: got 1, want 2',
  "case": {'t': {'ranks': ['K'], 'shape': [8], 'dims': [8], 'default': 0, 'spec': [[0, 1], [1, 2], [2, 3]]}, 'xs': [], 'ops': [], 'bases': [7, 7], 'extra': None, 'descs': None}},
 {"sub": 'lookups', "why": 'a mutant: C, shape None: rank 0 fiber 0 [0, 1, 3, 4]: handle looked up for 2: got 1, want 2',
  "case": {'t': {'ranks': ['K'], 'shape': [8], 'dims': [8], 'default': 0, 'spec': [[0, 1], [1, 2], [3, 4], [4, 5]]}, 'xs': [], 'ops': [], 'bases': [0, 3], 'extra': None, 'descs': None}},
 {"sub": 'lookups', "why": 'a mutant: library raised IndexError: list index out of range (in coord_list.py:coordToHandle) on a legal input',
  "case": {'t': {'ranks': ['K'], 'shape': [8], 'dims': [8], 'default': 0, 'spec': [[0, 1], [1, 2], [2, 3], [3, 4]]}, 'xs': [], 'ops': [], 'bases': [6, 7], 'extra': None, 'descs': None}},
 {"sub": 'built', "why": 'a mutant: UUU, shape None: rank 1 fiber 1 [0]: fiber handles scanned from 0: got [0], want [1]',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [3, 2, 1], 'default': 0, 'spec': [[1, [[0, [[0, 5]]]]]]}, 'xs': [], 'ops': [], 'extra': None, 'bases': [], 'descs': None}},
 {"sub": 'built', "why": 'a mutant: UBC, shape None: rank 1 (B): the payloads array holds 0 entries, more are needed',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [3, 3, 3], 'default': 0, 'spec': [[2, [[0, [[2, -2]]]]]], 'prov': 'grown'}, 'xs': [], 'ops': [], 'extra': None, 'bases': [], 'descs': None}},
 {"sub": 'built', "why": 'a mutant: UCU, shape None: rank 1 fiber 2 [1]: fiber handles scanned from 0: got [0], want [2]',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [3, 2, 3], 'default': 0, 'spec': [[1, [[0, [[2, 5]]], [1, [[0, 5], [1, 3]]]]], [2, [[1, [[0, 0], [2, 5]]]]]]}, 'xs': [], 'ops': [], 'extra': None, 'bases': [], 'descs': None}}]
