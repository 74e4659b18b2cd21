[{"sub": 'kernels', "why": "a planted bug: library raised AssertionError: Fiber coordinates in 'ordered' fibers must be monotonically increasing (in fiber.py:appen",
  "case": {'e': {'idx': ['I', 'J'], 'ops': ['IJ'], 'out': ''}, 'dims': {'I': 6, 'J': 6}, 'data': [[[2, [[0, -2]]], [4, [[0, 2], [3, -2]]]]], 'tiles': {'I': [], 'J': [1]}, 'rel': False, 'known': False, 'u': [], 'style': ['nested'], 'order': ['I0', 'J1', 'J0'], 'lead': 0, 'filter': False, 'swap': False}},
 {"sub": 'kernels', "why": 'a mutant: library raised IndexError: list index out of range (in tensor.py:swizzleRanks) on a legal input',
  "case": {'e': {'idx': ['I', 'J', 'K'], 'ops': ['IK', 'IJK'], 'out': 'KIJ'}, 'dims': {'I': 1, 'J': 2, 'K': 3}, 'data': [[[0, [[1, 5]]]], [[0, [[1, []]]]]], 'tiles': {'I': [], 'J': [], 'K': []}, 'rel': False, 'known': True, 'u': [], 'style': ['two-finger'], 'order': ['I0', 'K0', 'J0'], 'lead': 4, 'filter': False, 'swap': False}},
 {"sub": 'sweep', "why": "a mutant: KIJ = JKI, loops ('I0', 'I1', 'I2', 'J0', 'J1', 'K0', 'K1', 'K2'), nested: got {(0, 0, 0): 2, (1, 0, 0): 1, (2, 0, 0): 5",
  "case": {'e': {'idx': ['I', 'J', 'K'], 'ops': ['JKI'], 'out': 'KIJ'}, 'dims': {'I': 4, 'J': 2, 'K': 4}, 'data': [[[0, [[0, [[0, 2], [1, 5], [2, -2], [3, 3]]], [1, [[0, 1], [1, 3], [2, 2], [3, 5]]], [2, [[0, 5], [1, 2], [2, 5], [3, 2]]], [3, [[0, -1], [1, 2], [2, -2], [3, -2]]]]]]], 'tiles': {'I': [2, 1], 'J': [1], 'K': [4, 2]}, 'rel': True, 'known': True, 'u': [], 'style': ['two-finger'], 'order': ['I1', 'K1', 'K2', 'I0', 'J0', 'J1', 'K0', 'I2'], 'lead': 2, 'filter': False, 'swap': False}}]
