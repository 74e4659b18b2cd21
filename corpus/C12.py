[{"sub": 'triples', "why": 'a repaired defect: tree: == its nonEmpty: got False, want True',
  "case": {'dims': [2, 1], 'default': 0, 'm': [{'spec': [], 'd': 0, 'own': False, 'ch': 'same', 'shape': [2, 1], 'fmt': ['C', 'C'], 'active': None, 'name': '', 'via': 'build'}, {'spec': [], 'd': 0, 'own': True, 'ch': 'same', 'shape': None, 'fmt': ['C', 'C'], 'active': None, 'name': '', 'via': 'build'}, {'spec': [], 'd': 0, 'own': True, 'ch': 'same', 'shape': [2, 1], 'fmt': ['U', 'C'], 'active': None, 'name': '', 'via': 'build'}]}},
 {"sub": 'small', "why": 'a planted bug: [[1, [[0, [[0, 1], [1, 0]]]]]]: nonEmpty: an explicit default',
  "case": {'depth': 3, 'i': 7}},
 {"sub": 'small', "why": 'a mutant: [[1, [[0, 1], [1, 1]]]]: countValues(recursive=False): got 2, want 1',
  "case": {'depth': 2, 'i': 9}},
 {"sub": 'triples', "why": "a mutant: library raised AttributeError: 'int' object has no attribute 'isLazy' (in fiber.py:__eq__) on a legal input",
  "case": {'dims': [1], 'default': 0, 'm': [{'spec': [], 'd': 0, 'own': False, 'ch': 'same', 'shape': None, 'fmt': ['C'], 'active': None, 'name': '', 'via': 'build'}, {'spec': [], 'd': 0, 'own': False, 'ch': 'same', 'shape': None, 'fmt': ['C'], 'active': None, 'name': '', 'via': 'build'}, {'spec': [], 'd': 0, 'own': False, 'ch': 'same', 'shape': None, 'fmt': ['C'], 'active': None, 'name': '', 'via': 'build'}]}}]
