[{"sub": 'fibers', "why": "a planted bug: fiber ('merge', 0, 1, False): coordinate 3 is not inside the shape 1 of its fiber",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[0, [[0, [[0, 3]]]]], [15, [[0, [[3, -2]]]]]], 'fmt': ['C', 'C', 'C'], 'own': False, 'x': ('merge', 0, 1, False), 'style': 'absolute', 'lv': 1, 'shapes': [0, 0]}},
 {"sub": 'chain', "why": "a repaired defect: ('updcoords', 0, 'id') after []: authoritative shape: got [1], want [64]",
  "case": {'ranks': ['M'], 'shape': [1], 'default': 0, 'spec': [], 'fmt': ['C'], 'mutable': False, 'act': 1, 'steps': [('updcoords', 0, 'id')]}},
 {"sub": 'chain', "why": "a repaired defect: ('rename', 0, '+3', False, False) after []: rank M: coordinate 3 is not inside the reported shape 1",
  "case": {'ranks': ['M', 'K'], 'shape': None, 'default': 0, 'spec': [[0, []]], 'fmt': ['C', 'C'], 'mutable': False, 'act': 0, 'steps': [('rename', 0, '+3', False, False)]}},
 {"sub": 'chain', "why": "a repaired defect: ('uniform', 1, 2, False) after [('uniform', 0, 1, False)]: rank M.0.1: coordinate 0 of [0] is outside the active range (",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[1, [[0, [[3, 1]]]]]], 'fmt': ['C', 'C', 'C'], 'mutable': False, 'act': 0, 'steps': [('uniform', 0, 1, False), ('uniform', 1, 2, False)]}},
 {"sub": 'chain', "why": "a planted bug: ('flatten', 0, 2, 'tuple') after []: mutability hint: got False, want True",
  "case": {'ranks': ['M', 'K', 'N', 'J'], 'shape': None, 'default': 0, 'spec': [], 'fmt': ['C', 'C', 'C', 'C'], 'mutable': True, 'act': None, 'steps': [('flatten', 0, 2, 'tuple')]}},
 {"sub": 'chain', "why": "a mutant: start: rank M: getShape is 0, the tensor's is 1",
  "case": {'ranks': ['M'], 'shape': [1], 'default': 0, 'spec': [], 'fmt': ['C'], 'mutable': False, 'act': 0, 'steps': [('equal', 0, 1, False)]}},
 {"sub": 'chain', "why": "a mutant: ('swap', 0) after []: rank K: coordinate 9223372036854775807 is not inside the reported shape 1",
  "case": {'ranks': ['M', 'K'], 'shape': [6, 1], 'default': 0, 'spec': [], 'fmt': ['C', 'C'], 'mutable': False, 'act': 0, 'steps': [('swap', 0)]}},
 {"sub": 'chain', "why": "a mutant: ('updcoords', 1, '+3') after []: authoritative shape: got [3, 1], want [3, 64]",
  "case": {'ranks': ['M', 'K'], 'shape': [3, 1], 'default': 0, 'spec': [], 'fmt': ['C', 'C'], 'mutable': True, 'act': None, 'steps': [('updcoords', 1, '+3')]}},
 {"sub": 'build', "why": 'a mutant: library raised AssertionError:  (in tensor.py:fromUncompressed) on a legal input',
  "case": {'ranks': ['M'], 'shape': None, 'default': 0, 'spec': [], 'fmt': ['C'], 'k': 'populated', 'own': False, 'fdef': 0, 'grow': 0, 'seed': 0, 'dens': 0.2}},
 {"sub": 'fibers', "why": "a mutant: fiber ('swap', 0, 1, False): coordinate 0 is not inside the shape (1,) of its fiber",
  "case": {'ranks': ['M', 'K'], 'shape': [1, 1], 'default': 0, 'spec': [[0, [[0, 1]]]], 'fmt': ['C', 'C'], 'own': False, 'x': ('swap', 0, 1, False), 'style': 'tuple', 'lv': 1}},
 {"sub": 'fibers', "why": "a mutant: fiber ('swap', 0, 1, False): coordinate 1 is not inside the shape 1 of its fiber",
  "case": {'ranks': ['M', 'K'], 'shape': [1, 2], 'default': 0, 'spec': [[0, [[1, -2]]]], 'fmt': ['C', 'C'], 'own': False, 'x': ('swap', 0, 1, False), 'style': 'tuple', 'lv': 1}},
 {"sub": 'fibers', "why": "a mutant: fiber ('swap', 1, 1, False): coordinate 4 is not inside the shape 3 of its fiber",
  "case": {'ranks': ['M', 'K'], 'shape': [3, 6], 'default': 0, 'spec': [[2, [[0, 2], [4, -2], [5, 1]]]], 'fmt': ['C', 'C'], 'own': False, 'x': ('swap', 1, 1, False), 'style': 'pair', 'lv': 1}},
 {"sub": 'chain', "why": "a mutant: ('unflatten', 0, 1) after [('div', 0, 2), ('flatten', 0, 1, 'tuple')]: authoritative shape: got [1, (1,), 1], want [1, 1",
  "case": {'ranks': ['M', 'K'], 'shape': [1, 1], 'default': 0, 'spec': [], 'fmt': ['C', 'C'], 'mutable': False, 'act': 0, 'steps': [('div', 0, 2), ('flatten', 0, 1, 'tuple'), ('unflatten', 0, 1), ('floordiv', 0, 3)]}},
 {"sub": 'chain', "why": "a mutant: library raised TypeError: 'NoneType' object is not iterable (in rank.py:getShape) on a legal input",
  "case": {'ranks': ['M', 'K', 'N', 'J'], 'shape': None, 'default': 3, 'spec': [[0, []], [2, [[2, [[1, [[0, 3], [1, 0]]], [2, [[1, 4]]]]]]]], 'fmt': ['U', 'C', 'U', 'C'], 'mutable': True, 'act': None, 'steps': [('swap', 1), ('swap', 0)]}},
 {"sub": 'chain', "why": "a mutant: ('rename', 0, 'id', True, True) after [('swap', 0)]: rank Z2: shape of a fiber: got 1, want 3",
  "case": {'ranks': ['M', 'K'], 'shape': None, 'default': 0, 'spec': [[1, [[0, 3], [1, 0]]], [2, [[0, 1], [1, 0]]]], 'fmt': ['U', 'U'], 'mutable': True, 'act': None, 'steps': [('swap', 0), ('rename', 0, 'id', True, True), ('rename', 1, '+3', True, False)]}},
 {"sub": 'chain', "why": "a mutant: ('flatten', 0, 1, 'tuple') after []: rank ['M', 'K']: coordinate (0, 4) is not inside the reported shape (6, 4)",
  "case": {'ranks': ['M', 'K'], 'shape': None, 'default': 0, 'spec': [[0, [[4, 3]]], [1, [[1, 1], [2, 5]]], [2, [[0, 5], [2, 0]]], [4, [[0, 1]]], [5, [[1, 0], [3, 5], [4, 0]]]], 'fmt': ['U', 'C'], 'mutable': False, 'act': None, 'steps': [('flatten', 0, 1, 'tuple')]}},
 {"sub": 'chain', "why": "a mutant: ('flatten', 1, 1, 'pair') after []: rank ['K', 'N']: coordinate (0, 2) is not inside the reported shape (4, 2)",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[0, [[0, [[0, 2], [1, 4], [2, 2]]], [1, []], [2, [[1, -1]]], [3, [[0, 2], [1, 3]]]]], [1, [[0, [[1, 5]]], [1, [[0, 1]]]]]], 'fmt': ['C', 'U', 'C'], 'mutable': True, 'act': None, 'steps': [('flatten', 1, 1, 'pair'), ('unflatten', 1, 1), ('div', 0, 1), ('swap', 0)]}},
 {"sub": 'chain', "why": 'a mutant: library raised AssertionError:  (in fiber.py:_flattenCoords) on a legal input',
  "case": {'ranks': ['M', 'K', 'N'], 'shape': [4, 3, 3], 'default': 0, 'spec': [[0, [[0, [[0, -1], [1, 5], [2, 5]]], [1, [[0, 2], [2, 5]]], [2, [[0, 1], [1, 0], [2, 1]]]]], [1, [[0, [[0, -2], [2, 0]]], [1, [[0, 2], [1, 0], [2, 0]]], [2, [[0, 5], [1, -1], [2, 3]]]]], [2, [[0, [[0, 2], [1, -1], [2, 2]]], [1, [[0, -2]]], [2, [[0, -1], [1, 5], [2, -2]]]]], [3, [[0, [[0, 0], [2, 2]]], [1, [[0, -2], [1, 0], [2, -1]]], [2, [[0, 5], [1, 2], [2, 5]]]]]], 'fmt': ['U', 'U', 'C'], 'mutable': False, 'act': None, 'steps': [('flatten', 0, 1, 'linear')]}}]
