[{"sub": 'one', "why": 'a repaired defect: library raised ValueError: min() iterable argument is empty (in fiber.py:__iter__) on a legal input',
  "case": {'depth': 1, 'default': 0, 'spec': [[0, 2]], 'active': None, 'shape': None, 'own': False, 'fmt': 'C', 'tuples': False, 'split': ('nonuniform', [2], False, 2, 0), 'asfiber': False}},
 {"sub": 'one', "why": "a mutant: split ('nonuniform', [0, 1], True, 0, 0): partition 1 active range: got (1, 7), want (0, 7)",
  "case": {'depth': 1, 'default': 0, 'spec': [[1, 3], [2, 0]], 'active': (0, 8), 'shape': None, 'own': False, 'fmt': 'C', 'tuples': False, 'split': ('nonuniform', [0, 1], True, 0, 0), 'asfiber': False}},
 {"sub": 'one', "why": "a mutant: split ('nonuniform', [0, 1, 2], False, 3, 0): upper coordinates: got [1, 2], want [1]",
  "case": {'depth': 1, 'default': 0, 'spec': [[0, 0], [1, -1]], 'active': None, 'shape': None, 'own': False, 'fmt': 'C', 'tuples': False, 'split': ('nonuniform', [0, 1, 2], False, 3, 0), 'asfiber': False}},
 {"sub": 'deep', "why": "a mutant: step 1: ('nonuniform', [0, 1, 6, 9], False, 0, 0) at depth 3[1][0][0]: upper coordinates: got [0], want [1]",
  "case": {'ranks': ['M', 'K', 'N'], 'shape': None, 'default': 0, 'spec': [[1, [[0, [[0, 0], [1, -2], [2, 1]]]]]], 'steps': [{'split': ('equal', 4, True, 0, 0), 'depth': 2, 'via': 'depth'}, {'split': ('nonuniform', [0, 1, 6, 9], False, 0, 0), 'depth': 3, 'via': 'rankid'}, {'split': ('nonuniform', [2, 10], True, 0, 0), 'depth': 2, 'via': 'depth'}], 'fiberlevel': True, 'fmt': ['C', 'C', 'C']}}]
