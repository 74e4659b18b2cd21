[{"sub": 'chain', "why": "a repaired defect: ('uniform', 0, 1, False) after [('swap', 1), ('updcoords', 0, '+3'), ('equal', 2, 3)]: points: got {}, want {(36, 36, 0,",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[33, [[0, [[0, 5]]]]]], 'fmt': ['C', 'C', 'C'], 'steps': [('swap', 1), ('updcoords', 0, '+3'), ('equal', 2, 3), ('uniform', 0, 1, False)]}},
 {"sub": 'chain', "why": 'a repaired defect: library raised TypeError: can only concatenate list (not "str") to list (in tensor.py:_splitGeneric) on a legal input',
  "case": {'ranks': ['M'], 'shape': None, 'default': 0, 'spec': [], 'fmt': ['C'], 'steps': [('uniform', 0, 1, False), ('flatten', 0, 1, 'tuple'), ('equal', 0, 1)]}},
 {"sub": 'chain', "why": "a repaired defect: ('updcoords', 1, '+3') after []: points: got {(1, 0, 0): 1}, want {(1, 3, 0): 1}",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[0, []], [1, [[0, [[0, 1]]]]]], 'fmt': ['C', 'C', 'C'], 'steps': [('updcoords', 1, '+3')]}},
 {"sub": 'inverse', "why": "a planted bug: unflatten 1 of flatten ('tuple', 0, 3): points: got {(0, (2, 0)): 3}, want {(0, (0, 2, 0)): 3}",
  "case": {'ranks': ['M', 'K', 'N', 'J'], 'shape': None, 'default': 0, 'spec': [[0, [[0, [[2, [[0, 3]]]]]]]], 'fmt': ['C', 'C', 'C', 'U'], 'x': ('tuple', 0, 3)}},
 {"sub": 'small', "why": "a mutant: library raised TypeError: unsupported operand type(s) for *: 'int' and 'NoneType' (in fiber.py:_mergeRanksHelper) on a l",
  "case": {'ranks': ['M', 'K'], 'shape': [2, 2], 'default': 0, 'spec': []}},
 {"sub": 'inverse', "why": "a mutant: library raised TypeError: 'int' object is not subscriptable (in tensor.py:_unflattenRankIdsShape) on a legal input",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': [1, 1, 1], 'default': 0, 'spec': [], 'fmt': ['C', 'C', 'C'], 'x': ('pair', 0, 2)}},
 {"sub": 'inverse', "why": "a mutant: library raised TypeError: 'int' object is not subscriptable (in tensor.py:_unflattenRankIdsShape) on a legal input",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': [1, 3, 3], 'default': 0, 'spec': [], 'fmt': ['C', 'C', 'C'], 'x': ('pair', 0, 2)}},
 {"sub": 'inverse', "why": "a mutant: library raised TypeError: 'int' object is not subscriptable (in tensor.py:_unflattenRankIdsShape) on a legal input",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': [4, 2, 4], 'default': 0, 'spec': [], 'fmt': ['C', 'C', 'C'], 'x': ('tuple', 0, 2)}},
 {"sub": 'inverse', "why": "a mutant: library raised TypeError: 'int' object is not subscriptable (in tensor.py:_unflattenRankIdsShape) on a legal input",
  "case": {'ranks': ['M', 'K', 'N', 'J'], 'shape': [1, 3, 1, 3], 'default': 0, 'spec': [], 'fmt': ['C', 'C', 'C', 'C'], 'x': ('pair', 0, 2)}},
 {"sub": 'small', "why": 'a mutant: library raised AssertionError:  (in fiber.py:_flattenCoords) on a legal input',
  "case": {'ranks': ['M', 'K', 'N'], 'shape': [2, 2, 2], 'default': 0, 'spec': [[0, [[0, [[0, 0]]], [1, [[0, -1], [1, -1]]]]], [1, [[1, []]]]]}},
 {"sub": 'chain', "why": 'a mutant: library raised AssertionError:  (in fiber.py:_mergeToFibertree) on a legal input',
  "case": {'ranks': ['M', 'K'], 'shape': None, 'default': 0, 'spec': [[0, [[0, -2]]]], 'fmt': ['C', 'C'], 'steps': [('flatten', 0, 1, 'pair')]}},
 {"sub": 'inverse', "why": "a mutant: library raised TypeError: 'int' object is not subscriptable (in tensor.py:_unflattenRankIdsShape) on a legal input",
  "case": {'ranks': ['M', 'K', 'N', 'J'], 'shape': [1, 1, 1, 1], 'default': 0, 'spec': [], 'fmt': ['C', 'U', 'C', 'C'], 'x': ('deep', 1, False)}},
 {"sub": 'chain', "why": "a mutant: library raised TypeError: '>' not supported between instances of 'NoneType' and 'NoneType' (in fiber.py:_maxShape) on a ",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[2, [[0, []]]], [3, []]], 'fmt': ['C', 'C', 'C'], 'steps': [('flatten', 0, 2, 'tuple')]}},
 {"sub": 'chain', "why": "a mutant: ('merge', 0, 1, 'tuple', None) after [('flatten', 0, 1, 'tuple')]: rank ids: got [[['M', 'K'], 'N']], want [['M', 'K', '",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [], 'fmt': ['C', 'C', 'C'], 'steps': [('flatten', 0, 1, 'tuple'), ('merge', 0, 1, 'tuple', None)]}},
 {"sub": 'chain', "why": "a mutant: library raised TypeError: '>=' not supported between instances of 'tuple' and 'int' (in iterators.py:iterRange) on a leg",
  "case": {'ranks': ['M'], 'shape': None, 'default': 0, 'spec': [[0, 1], [1, 1]], 'fmt': ['C'], 'steps': [('equal', 0, 1), ('flatten', 0, 1, 'pair'), ('updcoords', 0, '*2'), ('equal', 0, 3)]}},
 {"sub": 'chain', "why": "a mutant: ('uniform', 0, 3, False) after [('merge', 0, 1, 'absolute', 'max'), ('deepcopy',)]: points: got {(0, 0): 1}, want {(0, 0",
  "case": {'ranks': ['M', 'K'], 'shape': None, 'default': 0, 'spec': [[1, [[0, 1], [3, -2]]]], 'fmt': ['C', 'C'], 'steps': [('merge', 0, 1, 'absolute', 'max'), ('deepcopy',), ('uniform', 0, 3, False)]}},
 {"sub": 'chain', "why": "a mutant: ('nonuniform', 0, [0, 1], False) after [('merge', 0, 1, 'absolute', 'sum')]: points: got {(0, 0): 2, (1, 1): 2}, want {(",
  "case": {'ranks': ['M', 'K'], 'shape': None, 'default': 0, 'spec': [[0, [[0, 1], [1, 1], [4, 1]]], [1, [[0, 1], [1, 1], [2, 1], [3, 1], [4, 1]]]], 'fmt': ['C', 'C'], 'steps': [('merge', 0, 1, 'absolute', 'sum'), ('nonuniform', 0, [0, 1], False)]}},
 {"sub": 'chain', "why": "a mutant: ('merge', 2, 1, 'relative', 'last') after [('swap', 1)]: points: got {(0, 0, 0): -1, (0, 0, 2): 1, (0, 1, 1): -1, (1, 1,",
  "case": {'ranks': ['M', 'K', 'N', 'J'], 'shape': None, 'default': 0, 'spec': [[0, [[0, [[0, [[0, -1], [2, 1]]]]], [1, [[0, [[1, -1]]]]]]], [1, [[1, [[0, [[1, -2], [2, 5]]]]]]]], 'fmt': ['C', 'C', 'C', 'C'], 'steps': [('swap', 1), ('merge', 2, 1, 'relative', 'last')]}},
 {"sub": 'small', "why": "a mutant: library raised TypeError: '>' not supported between instances of 'NoneType' and 'int' (in fiber.py:_maxShape) on a legal",
  "case": {'ranks': ['M', 'K', 'N', 'J'], 'shape': [2, 2, 2, 2], 'default': 0, 'spec': [[0, [[0, [[1, [[0, 0], [1, 1]]]]], [1, [[0, [[0, 2], [1, 0]]], [1, [[0, 2]]]]]]], [1, [[0, [[0, [[1, 2]]], [1, [[0, 2], [1, 0]]]]], [1, [[0, [[0, 2], [1, 0]]], [1, [[0, 1], [1, 2]]]]]]]]}},
 {"sub": 'chain', "why": "a mutant: ('equal', 1, 2) after [('swizzle', (1, 2, 0)), ('nonuniform', 0, [0, 5], True), ('updcoords', 1, '*2')]: points without ",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[0, [[0, [[0, 5]]], [1, [[0, 3]]]]]], 'fmt': ['C', 'C', 'C'], 'steps': [('swizzle', (1, 2, 0)), ('nonuniform', 0, [0, 5], True), ('updcoords', 1, '*2'), ('flatten', 1, 1, 'absolute'), ('equal', 1, 2)]}}]
