[{"sub": 'history', "why": "a planted bug: step 9 ('seq', (), [7], 'pos') at 7 from position 0: got None, want 7",
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [8], 'default': 0, 'spec': [[0, 0], [1, 0], [2, 0], [3, 0], [4, 0], [5, 0], [6, 0], [7, 0]], 'unowned': False}, 'ops': [('read', (0,)), ('read', (0,)), ('read', (0,)), ('read', (0,)), ('read', (0,)), ('read', (0,)), ('read', (0,)), ('read', (0,)), ('read', (0,)), ('seq', (), [7], 'pos')], 'tup': None}},
 {"sub": 'unordered', "why": 'a mutant: number of elements: got 4, want 3',
  "case": {'coords': [0, 3, 1], 'vals': [0, 0, 0], 'ops': [('set', 1, 0)]}},
 {"sub": 'history', "why": "a mutant: step 2 ('posref', (0,)): no element was created",
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [1], 'default': 0, 'spec': [], 'unowned': False}, 'ops': [('read', (0,)), ('read', (0,)), ('posref', (0,))]}},
 {"sub": 'history', "why": "a mutant: library raised TypeError: unsupported operand type(s) for -: 'NoneType' and 'int' (in fiber.py:getPosition) on a legal i",
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [1], 'default': 0, 'spec': [], 'unowned': False}, 'ops': [('read', (0,)), ('startpos', (0,), 0, False, 'none', 0), ('read', (0,))]}},
 {"sub": 'history', "why": "a mutant: library raised TypeError: 'Payload' object cannot be interpreted as an integer (in fiber.py:_coord2pos) on a legal input",
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [1], 'default': 0, 'spec': [], 'unowned': False}, 'ops': [('read', (0,)), ('startposref', (0,), 0, True, 'none', 0), ('read', (0,))]}},
 {"sub": 'history', "why": "a mutant: library raised TypeError: 'Payload' object cannot be interpreted as an integer (in fiber.py:_coord2pos) on a legal input",
  "case": {'t': {'ranks': ['M', 'K'], 'shape': None, 'dims': [1, 1], 'default': 0, 'spec': [], 'unowned': False}, 'ops': [('read', (0, 0)), ('readd', (0, 0), None), ('readw', (0, 0), 0), ('read', (0, 0)), ('read', (0, 0)), ('startref', (0,), 0, True, 'none', 0)]}}]
