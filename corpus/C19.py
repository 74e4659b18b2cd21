[{"sub": 'swaps', "why": 'a repaired defect: swaps: got 6, want 0',
  "case": {'spec': [], 'n': 2, 'depth': 0, 'known': True, 'shape': [4, 1], 'fmt': ['U', 'C'], 'radix': 2, 'lat': 1, 'vals': [0]}},
 {"sub": 'small', "why": 'a repaired defect: library raised IndexError: list index out of range (in intersect.py:addTraces) on a legal input',
  "case": {'depth': 1, 'outer': [[0], [2]], 'fibers': [[[], []], [[], []]], 'cuts': [False, False], 'zeros': False, 'n': 3, 'lf': False, 'fmt': 'CC', 'jitter': 1}},
 {"sub": 'swaps', "why": "a repaired defect: library raised TypeError: '>' not supported between instances of 'str' and 'int' (in compute.py:_numSwapsTree) on a lega",
  "case": {'spec': [[0, [[2, [[0, 1]]], [4, [[0, 1]]]]], [1, [[0, [[0, 1]]]]]], 'n': 3, 'depth': 1, 'known': False, 'shape': [2, 8, 1], 'fmt': ['C', 'C', 'C'], 'radix': 'N', 'lat': 0, 'vals': [0]}},
 {"sub": 'swaps', "why": 'a planted bug: swaps: got 5, want 6',
  "case": {'spec': [[2, [[0, 1]]], [3, [[0, 1]]], [4, [[0, 1]]]], 'n': 2, 'depth': 0, 'known': False, 'shape': [8, 1], 'fmt': ['C', 'C'], 'radix': 2, 'lat': 'N', 'vals': [0]}},
 {"sub": 'small', "why": "a mutant: counts over 2 batches: got {'two-finger': 0, 'skip-ahead': 0, 'lf0': 0, 'lf1': 2}, want {'two-finger': 0, 'skip-ahead': ",
  "case": {'depth': 1, 'outer': [[0], [2]], 'fibers': [[[], []], [[], [0, 1]]], 'cuts': [True, False], 'zeros': False, 'n': 3, 'lf': False, 'fmt': 'CC', 'jitter': 1}},
 {"sub": 'small', "why": "a mutant: counts over 2 batches: got {'two-finger': 1, 'skip-ahead': 2, 'lf0': 1, 'lf1': 2}, want {'two-finger': 1, 'skip-ahead': ",
  "case": {'depth': 1, 'outer': [[0], [2]], 'fibers': [[[], []], [[0], [0, 1, 2]]], 'cuts': [True, False], 'zeros': False, 'n': 3, 'lf': False, 'fmt': 'CC', 'jitter': 1}},
 {"sub": 'swaps', "why": 'a mutant: library raised IndexError: pop from empty list (in compute.py:_merge) on a legal input',
  "case": {'spec': [[0, [[1, 1]]], [1, [[0, 1]]], [2, [[0, 1]]], [5, [[0, 1]]]], 'n': 2, 'depth': 0, 'known': False, 'shape': [6, 3], 'fmt': ['C', 'C'], 'radix': 2, 'lat': 'N', 'vals': [9, -5]}},
 {"sub": 'swaps', "why": 'a mutant: swaps: got 77, want 87',
  "case": {'spec': [[0, [[0, 1]]], [1, [[1, 1], [4, 1]]], [2, [[1, 1], [3, 1], [4, 1], [5, 1]]], [3, [[0, 0], [1, 0], [2, 1], [3, 0.5], [4, 0], [5, 1]]], [4, [[0, -3]]], [5, [[0, -3], [1, 1], [2, 2], [3, 2], [4, 0.5], [5, 1]]], [6, [[1, 2], [2, 0], [3, -3], [4, 2], [5, 0]]]], 'n': 2, 'depth': 0, 'known': False, 'shape': [7, 6], 'fmt': ['C', 'U'], 'radix': 4, 'lat': 'N', 'vals': [-5]}}]
